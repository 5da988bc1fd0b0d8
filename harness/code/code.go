// Package code holds the protocol codes of RFC 2741 and RFC 3416 by number,
// independently of the constants the library defines.
package code

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

const (
	TagOpen            agentx.PduTag = 1
	TagClose           agentx.PduTag = 2
	TagRegister        agentx.PduTag = 3
	TagUnregister      agentx.PduTag = 4
	TagGet             agentx.PduTag = 5
	TagGetNext         agentx.PduTag = 6
	TagGetBulk         agentx.PduTag = 7
	TagTestSet         agentx.PduTag = 8
	TagCommitSet       agentx.PduTag = 9
	TagUndoSet         agentx.PduTag = 10
	TagCleanupSet      agentx.PduTag = 11
	TagNotify          agentx.PduTag = 12
	TagPing            agentx.PduTag = 13
	TagIndexAllocate   agentx.PduTag = 14
	TagIndexDeallocate agentx.PduTag = 15
	TagAddAgentCaps    agentx.PduTag = 16
	TagRemoveAgentCaps agentx.PduTag = 17
	TagResponse        agentx.PduTag = 18
)

const (
	FlagsNone                agentx.Flags = 0
	FlagInstanceRegistration agentx.Flags = 1
	FlagNewIndex             agentx.Flags = 2
	FlagAnyIndex             agentx.Flags = 4
	FlagNonDefaultContext    agentx.Flags = 8
	FlagNetworkByteOrder     agentx.Flags = 16
)

const (
	CloseReasonOther         agentx.CloseReason = 1
	CloseReasonParseError    agentx.CloseReason = 2
	CloseReasonProtocolError agentx.CloseReason = 3
	CloseReasonTimeouts      agentx.CloseReason = 4
	CloseReasonShutdown      agentx.CloseReason = 5
	CloseReasonByManager     agentx.CloseReason = 6
)

const (
	TagInteger32      asn.Tag = 2
	TagOctetString    asn.Tag = 4
	TagNull           asn.Tag = 5
	TagObjectId       asn.Tag = 6
	TagSequence       asn.Tag = 48
	TagIpAddress      asn.Tag = 64
	TagCounter32      asn.Tag = 65
	TagGauge32        asn.Tag = 66
	TagTimeTicks      asn.Tag = 67
	TagOpaque         asn.Tag = 68
	TagCounter64      asn.Tag = 70
	TagNoSuchObject   asn.Tag = 128
	TagNoSuchInstance asn.Tag = 129
	TagEndOfMibView   asn.Tag = 130
)

const (
	NoError               pduerror.Error = 0
	TooBig                pduerror.Error = 1
	NoSuchName            pduerror.Error = 2
	BadValue              pduerror.Error = 3
	ReadOnly              pduerror.Error = 4
	GenError              pduerror.Error = 5
	NoAccess              pduerror.Error = 6
	WrongType             pduerror.Error = 7
	WrongLength           pduerror.Error = 8
	WrongEncoding         pduerror.Error = 9
	WrongValue            pduerror.Error = 10
	NoCreation            pduerror.Error = 11
	InconsistentValue     pduerror.Error = 12
	ResourceUnavailable   pduerror.Error = 13
	CommitFailed          pduerror.Error = 14
	UndoFailed            pduerror.Error = 15
	AuthorizationError    pduerror.Error = 16
	NotWritable           pduerror.Error = 17
	InconsistentName      pduerror.Error = 18
	OpenFailed            pduerror.Error = 256
	NotOpened             pduerror.Error = 257
	IndexWrongType        pduerror.Error = 258
	IndexAlreadyAllocated pduerror.Error = 259
	IndexNonAvailable     pduerror.Error = 260
	IndexNotAllocated     pduerror.Error = 261
	UnsupportedContext    pduerror.Error = 262
	DuplicateRegistration pduerror.Error = 263
	UnknownRegistration   pduerror.Error = 264
	UnknownAgentCaps      pduerror.Error = 265
	ParseError            pduerror.Error = 266
	RequestDenied         pduerror.Error = 267
	ProcessingError       pduerror.Error = 268
)
