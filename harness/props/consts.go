package props

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/code"
)

// namedCodes pairs the library's constants with the codes of the protocol.
var namedCodes = []struct {
	name      string
	got, want int
}{
	{"agentx.PduHeaderSize", agentx.PduHeaderSize, 20},
	{"agentx.TagOpen", int(agentx.TagOpen), int(code.TagOpen)},
	{"agentx.TagClose", int(agentx.TagClose), int(code.TagClose)},
	{"agentx.TagRegister", int(agentx.TagRegister), int(code.TagRegister)},
	{"agentx.TagUnregister", int(agentx.TagUnregister), int(code.TagUnregister)},
	{"agentx.TagGet", int(agentx.TagGet), int(code.TagGet)},
	{"agentx.TagGetNext", int(agentx.TagGetNext), int(code.TagGetNext)},
	{"agentx.TagGetBulk", int(agentx.TagGetBulk), int(code.TagGetBulk)},
	{"agentx.TagTestSet", int(agentx.TagTestSet), int(code.TagTestSet)},
	{"agentx.TagCommitSet", int(agentx.TagCommitSet), int(code.TagCommitSet)},
	{"agentx.TagUndoSet", int(agentx.TagUndoSet), int(code.TagUndoSet)},
	{"agentx.TagCleanupSet", int(agentx.TagCleanupSet), int(code.TagCleanupSet)},
	{"agentx.TagNotify", int(agentx.TagNotify), int(code.TagNotify)},
	{"agentx.TagPing", int(agentx.TagPing), int(code.TagPing)},
	{"agentx.TagIndexAllocate", int(agentx.TagIndexAllocate), int(code.TagIndexAllocate)},
	{"agentx.TagIndexDeallocate", int(agentx.TagIndexDeallocate), int(code.TagIndexDeallocate)},
	{"agentx.TagAddAgentCaps", int(agentx.TagAddAgentCaps), int(code.TagAddAgentCaps)},
	{"agentx.TagRemoveAgentCaps", int(agentx.TagRemoveAgentCaps), int(code.TagRemoveAgentCaps)},
	{"agentx.TagResponse", int(agentx.TagResponse), int(code.TagResponse)},
	{"agentx.FlagsNone", int(agentx.FlagsNone), int(code.FlagsNone)},
	{"agentx.FlagInstanceRegistration", int(agentx.FlagInstanceRegistration), int(code.FlagInstanceRegistration)},
	{"agentx.FlagNewIndex", int(agentx.FlagNewIndex), int(code.FlagNewIndex)},
	{"agentx.FlagAnyIndex", int(agentx.FlagAnyIndex), int(code.FlagAnyIndex)},
	{"agentx.FlagNonDefaultContext", int(agentx.FlagNonDefaultContext), int(code.FlagNonDefaultContext)},
	{"agentx.FlagNetworkByteOrder", int(agentx.FlagNetworkByteOrder), int(code.FlagNetworkByteOrder)},
	{"agentx.CloseReasonOther", int(agentx.CloseReasonOther), int(code.CloseReasonOther)},
	{"agentx.CloseReasonParseError", int(agentx.CloseReasonParseError), int(code.CloseReasonParseError)},
	{"agentx.CloseReasonProtocolError", int(agentx.CloseReasonProtocolError), int(code.CloseReasonProtocolError)},
	{"agentx.CloseReasonTimeouts", int(agentx.CloseReasonTimeouts), int(code.CloseReasonTimeouts)},
	{"agentx.CloseReasonShutdown", int(agentx.CloseReasonShutdown), int(code.CloseReasonShutdown)},
	{"agentx.CloseReasonByManager", int(agentx.CloseReasonByManager), int(code.CloseReasonByManager)},
	{"asn.TagInteger32", int(asn.TagInteger32), int(code.TagInteger32)},
	{"asn.TagOctetString", int(asn.TagOctetString), int(code.TagOctetString)},
	{"asn.TagNull", int(asn.TagNull), int(code.TagNull)},
	{"asn.TagObjectId", int(asn.TagObjectId), int(code.TagObjectId)},
	{"asn.TagSequence", int(asn.TagSequence), int(code.TagSequence)},
	{"asn.TagIpAddress", int(asn.TagIpAddress), int(code.TagIpAddress)},
	{"asn.TagCounter32", int(asn.TagCounter32), int(code.TagCounter32)},
	{"asn.TagGauge32", int(asn.TagGauge32), int(code.TagGauge32)},
	{"asn.TagTimeTicks", int(asn.TagTimeTicks), int(code.TagTimeTicks)},
	{"asn.TagOpaque", int(asn.TagOpaque), int(code.TagOpaque)},
	{"asn.TagCounter64", int(asn.TagCounter64), int(code.TagCounter64)},
	{"asn.TagNoSuchObject", int(asn.TagNoSuchObject), int(code.TagNoSuchObject)},
	{"asn.TagNoSuchInstance", int(asn.TagNoSuchInstance), int(code.TagNoSuchInstance)},
	{"asn.TagEndOfMibView", int(asn.TagEndOfMibView), int(code.TagEndOfMibView)},
	{"pduerror.NoError", int(pduerror.NoError), int(code.NoError)},
	{"pduerror.TooBig", int(pduerror.TooBig), int(code.TooBig)},
	{"pduerror.NoSuchName", int(pduerror.NoSuchName), int(code.NoSuchName)},
	{"pduerror.BadValue", int(pduerror.BadValue), int(code.BadValue)},
	{"pduerror.ReadOnly", int(pduerror.ReadOnly), int(code.ReadOnly)},
	{"pduerror.GenError", int(pduerror.GenError), int(code.GenError)},
	{"pduerror.NoAccess", int(pduerror.NoAccess), int(code.NoAccess)},
	{"pduerror.WrongType", int(pduerror.WrongType), int(code.WrongType)},
	{"pduerror.WrongLength", int(pduerror.WrongLength), int(code.WrongLength)},
	{"pduerror.WrongEncoding", int(pduerror.WrongEncoding), int(code.WrongEncoding)},
	{"pduerror.WrongValue", int(pduerror.WrongValue), int(code.WrongValue)},
	{"pduerror.NoCreation", int(pduerror.NoCreation), int(code.NoCreation)},
	{"pduerror.InconsistentValue", int(pduerror.InconsistentValue), int(code.InconsistentValue)},
	{"pduerror.ResourceUnavailable", int(pduerror.ResourceUnavailable), int(code.ResourceUnavailable)},
	{"pduerror.CommitFailed", int(pduerror.CommitFailed), int(code.CommitFailed)},
	{"pduerror.UndoFailed", int(pduerror.UndoFailed), int(code.UndoFailed)},
	{"pduerror.AuthorizationError", int(pduerror.AuthorizationError), int(code.AuthorizationError)},
	{"pduerror.NotWritable", int(pduerror.NotWritable), int(code.NotWritable)},
	{"pduerror.InconsistentName", int(pduerror.InconsistentName), int(code.InconsistentName)},
	{"pduerror.OpenFailed", int(pduerror.OpenFailed), int(code.OpenFailed)},
	{"pduerror.NotOpened", int(pduerror.NotOpened), int(code.NotOpened)},
	{"pduerror.IndexWrongType", int(pduerror.IndexWrongType), int(code.IndexWrongType)},
	{"pduerror.IndexAlreadyAllocated", int(pduerror.IndexAlreadyAllocated), int(code.IndexAlreadyAllocated)},
	{"pduerror.IndexNonAvailable", int(pduerror.IndexNonAvailable), int(code.IndexNonAvailable)},
	{"pduerror.IndexNotAllocated", int(pduerror.IndexNotAllocated), int(code.IndexNotAllocated)},
	{"pduerror.UnsupportedContext", int(pduerror.UnsupportedContext), int(code.UnsupportedContext)},
	{"pduerror.DuplicateRegistration", int(pduerror.DuplicateRegistration), int(code.DuplicateRegistration)},
	{"pduerror.UnknownRegistration", int(pduerror.UnknownRegistration), int(code.UnknownRegistration)},
	{"pduerror.UnknownAgentCaps", int(pduerror.UnknownAgentCaps), int(code.UnknownAgentCaps)},
	{"pduerror.ParseError", int(pduerror.ParseError), int(code.ParseError)},
	{"pduerror.RequestDenied", int(pduerror.RequestDenied), int(code.RequestDenied)},
	{"pduerror.ProcessingError", int(pduerror.ProcessingError), int(code.ProcessingError)},
}
