package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
	"syscall"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	libhex "github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	reg("C21", c21)
	reg("C22", c22)
	reg("C23", c23)
	reg("C25", c25)
	reg("C26", c26)
}

// trimLines drops blanks at line ends, which are not part of any statement.
func trimLines(s string) string {
	if !strings.Contains(s, " \n") && !strings.HasSuffix(s, " ") {
		return s
	}
	lines := strings.Split(s, "\n")
	for i := range lines {
		lines[i] = strings.TrimRight(lines[i], " ")
	}
	return strings.Join(lines, "\n")
}

func sameText(a, b string) bool { return a == b || trimLines(a) == trimLines(b) }

// firstLineDiff describes where two texts part.
func firstLineDiff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if strings.TrimRight(a, " ") != strings.TrimRight(b, " ") {
			return fmt.Sprintf("line %d: want %q, got %q", i, trunc(a, 300), trunc(b, 300))
		}
	}
	return "no difference"
}

func somePrefix(r gen.R) string {
	switch r.IntN(6) {
	case 0, 1:
		return ""
	case 2, 3:
		return "    "
	case 4:
		return gen.Pick(r, []string{"\t", "> ", "%s%d", "0", "FF ", "\n", "é", "out of range: ", "00000000  "})
	default:
		return gen.Str(r, 40)
	}
}

func c21(run *mon.Run) {
	run.Rule("Dumps of all ranges of short slices, of slices of swept and random lengths and contents with random prefixes and ranges, of invalid ranges up to the ends of int, and of offsets up to 3 GiB (in a reserved, unbacked mapping) are compared line by line with the dump by definition; the data must stay as it was and the text must not change when the data does. Non-trivial: a valid non-empty range or an invalid range; distinct by (data, range, prefix).")
	check := func(c *mon.Case, prefix string, data []byte, i1, i2 int) {
		got := libhex.DumpSub(prefix, data, i1, i2)
		var want string
		switch {
		case i1 < 0 || i1 > i2 || i2 > len(data):
			for _, s := range []string{fmt.Sprint(i1), fmt.Sprint(i2), fmt.Sprint(len(data))} {
				if !strings.Contains(got, s) {
					c.Fail("DumpSub(%q, %d bytes, %d, %d) = %q does not state %s", prefix, len(data), i1, i2, trunc(got, 300), s)
				}
			}
			want = fmt.Sprintf("%sout of range: i1 = %d, i2 = %d, len(data) = %d", prefix, i1, i2, len(data))
			c.Event("invalid-ranges")
		default:
			want = strings.Join(dumpLinesWith(prefix, data, i1, i2), "\n")
			c.Event("dumps")
			c.EventN("bytes-shown", i2-i1)
		}
		if !sameText(want, got) {
			c.Fail("DumpSub(%q, %d bytes, %d, %d): %s", prefix, len(data), i1, i2, firstLineDiff(want, got))
		}
	}
	whole := func(c *mon.Case, prefix string, data []byte) {
		want := strings.Join(dumpLinesWith(prefix, data, 0, len(data)), "\n")
		if got := libhex.Dump(prefix, data); !sameText(want, got) {
			c.Fail("Dump(%q, %d bytes): %s", prefix, len(data), firstLineDiff(want, got))
		}
		c.Event("dumps")
	}
	tail := func(c *mon.Case, prefix string, data []byte, size int) {
		got := libhex.DumpTail(prefix, data, size)
		if size < 0 || size > len(data) {
			if !strings.Contains(got, fmt.Sprint(len(data))) || !strings.Contains(got, "out of range") {
				c.Fail("DumpTail(%q, %d bytes, %d) = %q", prefix, len(data), size, trunc(got, 300))
			}
			c.Event("invalid-ranges")
			return
		}
		want := strings.Join(dumpLinesWith(prefix, data, len(data)-size, len(data)), "\n")
		if !sameText(want, got) {
			c.Fail("DumpTail(%q, %d bytes, %d): %s", prefix, len(data), size, firstLineDiff(want, got))
		}
		c.Event("dumps")
	}
	maxN := run.N(44, 90)
	run.Cases("all-ranges", maxN+1, func(c *mon.Case) {
		n := c.Index
		for rep := 0; rep < 2; rep++ {
			data := gen.Bytes(c.R, n)
			keep := string(data)
			prefix := []string{"", somePrefix(c.R)}[rep]
			for i1 := -2; i1 <= n+2; i1++ {
				for i2 := -2; i2 <= n+2; i2++ {
					check(c, prefix, data, i1, i2)
					c.Sig(data, i1, i2, prefix)
				}
			}
			for s := -2; s <= n+2; s++ {
				tail(c, prefix, data, s)
			}
			whole(c, prefix, data)
			if string(data) != keep {
				c.Fail("a dump changed the data")
			}
		}
	})
	run.Cases("byte-values", 256, func(c *mon.Case) {
		for n := 1; n <= 9; n++ {
			for pos := 0; pos < n; pos++ {
				data := make([]byte, n)
				data[pos] = byte(c.Index)
				check(c, "", data, 0, n)
				c.Sig(data)
			}
		}
	})
	lens := strLens(1 << 17)
	run.Cases("lengths", len(lens), func(c *mon.Case) {
		data := gen.Bytes(c.R, lens[c.Index])
		p := somePrefix(c.R)
		whole(c, p, data)
		tail(c, p, data, c.R.IntN(len(data)+1))
		c.Sig(data, p)
	})
	run.Cases("random", run.N(60000, 2000000), func(c *mon.Case) {
		n := gen.Len(c.R, 3000)
		data := gen.Bytes(c.R, n+c.R.IntN(4))[:n] // spare capacity behind the end
		keep := string(data[:cap(data)])
		p := somePrefix(c.R)
		i1 := c.R.IntN(n + 1)
		i2 := i1 + c.R.IntN(n-i1+1)
		switch c.R.IntN(12) {
		case 0:
			i2 = cap(data)
		case 1:
			i1, i2 = i2, i1
		case 2:
			i1 = int(gen.U64(c.R))
		case 3:
			i2 = int(gen.U64(c.R))
		}
		check(c, p, data, i1, i2)
		c.Sig(data, i1, i2, p)
		switch c.R.IntN(3) {
		case 0:
			tail(c, p, data, c.R.IntN(n+3)-1)
		case 1:
			whole(c, p, data)
		default:
			got := libhex.Dump(p, data)
			was := strings.Clone(got)
			for i := range data {
				data[i] = 0x5A
			}
			if got != was {
				c.Fail("the text of a dump changed with the data")
			}
			copy(data, keep)
			c.Event("text-kept-while-data-changed")
		}
		if string(data[:cap(data)]) != keep {
			c.Fail("a dump changed the data or the memory behind it")
		}
		c.Sample(func() string {
			return fmt.Sprintf("DumpSub(%q, %x, %d, %d) = %q", trunc(p, 40), trunc(string(data), 16), i1, i2, trunc(libhex.DumpSub(p, data, i1, i2), 200))
		})
	})
	run.Cases("extreme-ranges", 1, func(c *mon.Case) {
		ext := []int{math.MinInt, math.MinInt + 1, math.MinInt32, -5, -1, 0, 1, 4, 5, 6, math.MaxInt32, math.MaxInt - 4, math.MaxInt - 1, math.MaxInt}
		for _, x := range []int64{math.MinInt32 - 1, math.MaxInt32 + 1, math.MaxUint32} {
			if int64(int(x)) == x {
				ext = append(ext, int(x))
			}
		}
		for _, data := range [][]byte{nil, {}, {1}, {1, 2, 3, 4, 5}} {
			for _, a := range ext {
				for _, b := range ext {
					check(c, "p", data, a, b)
				}
				if int64(a) > math.MinInt32-2 && a > math.MinInt+1 {
					tail(c, "p", data, a)
				} else {
					libhex.DumpTail("p", data, a) // the start is not representable: just no panic
				}
			}
		}
	})
	// one receive buffer for message after message, a byte or two changed
	// between two dumps of the same range: each dump shows what is there now
	run.Serial("in-place", run.N(6000, 100000), func(c *mon.Case) {
		n := 1 + c.R.IntN(120)
		data := gen.Bytes(c.R, n)
		p := gen.Pick(c.R, []string{"", "> ", "\t", "body "})
		i1 := c.R.IntN(n)
		i2 := i1 + 1 + c.R.IntN(n-i1)
		switch c.R.IntN(3) {
		case 0:
			i1, i2 = 0, n
		case 1:
			i2 = n
		}
		for k := 0; k < 6; k++ {
			check(c, p, data, i1, i2)
			if i1 == 0 && i2 == n {
				whole(c, p, data)
			}
			if i2 == n {
				tail(c, p, data, n-i1)
			}
			c.Sig("in-place", data[i1:i2])
			switch c.R.IntN(4) {
			case 0:
				for i := range data {
					data[i] = byte(c.R.Uint32())
				}
			case 1:
				copy(data[i1:i2], gen.LookAlike(c.R, data[i1:i2]))
			default:
				data[i1+c.R.IntN(i2-i1)] ^= byte(1 + c.R.IntN(255))
			}
			c.Event("dumps-after-change-in-place")
		}
	})
	if run.Variant == "plain" && math.MaxInt > math.MaxUint32 {
		run.Serial("large-offsets", 1, func(c *mon.Case) {
			total := int64(3<<30 + 64)
			size := int(total)
			big, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
			if err != nil {
				c.Event("large-mapping-refused")
				return
			}
			defer syscall.Munmap(big)
			for _, at64 := range []int64{0xFFFC, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x1000001, 0x12345678, 0x7FFFFFFC, 0x7FFFFFFF, 0x80000000, 0x80000003, 0x8FFFFFFF, 0x9ABCDEF0, 3 << 30} {
				at := int(at64)
				for i := 0; i < 40; i++ {
					big[at+i] = byte(c.R.Uint32())
				}
				for k := 0; k < 40; k++ {
					a := at + c.R.IntN(20)
					check(c, "", big, a, a+c.R.IntN(20))
					c.Sig("big", a)
				}
			}
			tail(c, "", big, 33)
		})
	}
	run.Need("dumps", 50000)
	run.Need("invalid-ranges", 5000)
}

// readDiff reads both inputs back from a dump diff.
func readDiff(text string) (a, b []byte, err error) {
	pairOpen := false
	for n, line := range strings.Split(text, "\n") {
		mark, rest := "", line
		for _, m := range []string{"┌", "└", " "} {
			if strings.HasPrefix(line, m) {
				mark, rest = m, line[len(m):]
				break
			}
		}
		if mark == "" || len(rest) < 8 {
			return nil, nil, fmt.Errorf("line %d %q has no mark or no offset", n, line)
		}
		off, e := strconv.ParseUint(rest[:8], 16, 32)
		if e != nil || strings.ToUpper(rest) != rest {
			return nil, nil, fmt.Errorf("line %d %q: bad offset", n, line)
		}
		chunk, e := hex.DecodeString(strings.ReplaceAll(rest[8:], " ", ""))
		if e != nil || len(chunk) > 4 || len(strings.Fields(rest[8:])) != len(chunk) {
			return nil, nil, fmt.Errorf("line %d %q: bad bytes", n, line)
		}
		put := func(dst *[]byte) error {
			if len(chunk) > 0 && int(off) != len(*dst) || len(chunk) == 0 && int(off) < len(*dst) {
				return fmt.Errorf("line %d %q: offset %d, but %d bytes came before", n, line, off, len(*dst))
			}
			*dst = append(*dst, chunk...)
			return nil
		}
		if (mark == "└") != pairOpen {
			return nil, nil, fmt.Errorf("line %d %q: marks do not pair", n, line)
		}
		pairOpen = mark == "┌"
		if mark != "└" {
			if e := put(&a); e != nil {
				return nil, nil, e
			}
		}
		if mark != "┌" {
			if e := put(&b); e != nil {
				return nil, nil, e
			}
		}
	}
	if pairOpen {
		return nil, nil, fmt.Errorf("the last pair is not closed")
	}
	return
}

// refDiff is the dump diff by definition.
func refDiff(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	line := func(x []byte, i int) string {
		s := fmt.Sprintf("%08X  ", i)
		for k := i; k < i+4 && k < len(x); k++ {
			s += fmt.Sprintf("%02X ", x[k])
		}
		return s
	}
	var out []string
	for i := 0; i < max(len(a), len(b)); i += 4 {
		if la, lb := line(a, i), line(b, i); la == lb {
			out = append(out, " "+la)
		} else {
			out = append(out, "┌"+la, "└"+lb)
		}
	}
	return strings.Join(out, "\n")
}

func c22(run *mon.Run) {
	run.Rule("Pairs of slices (all pairs over two byte values up to length 6, all pairs of lengths, one differing byte at every position, prefixes, shifts, shared memory, random edits) go through DumpDiff; the text must be empty exactly for equal bytes, both inputs are read back from it by an independent parser, and it must be the diff by definition. Non-trivial: unequal pairs; distinct by pair.")
	check := func(c *mon.Case, a, b []byte) {
		ka, kb := string(a), string(b)
		got := libhex.DumpDiff(a, b)
		if string(a) != ka || string(b) != kb {
			c.Fail("DumpDiff changed its arguments")
		}
		if ka == kb {
			if got != "" {
				c.Fail("DumpDiff of equal %x is %q", trunc(ka, 100), trunc(got, 300))
			}
			c.Event("equal-pairs")
			return
		}
		c.Event("unequal-pairs")
		if got == "" {
			c.Fail("DumpDiff(%s, %s) is empty", hx(a), hx(b))
		}
		x, y, err := readDiff(got)
		if err != nil {
			c.Fail("DumpDiff(%s, %s): %v in %q", hx(a), hx(b), err, trunc(got, 2000))
		}
		if string(x) != ka || string(y) != kb {
			c.Fail("DumpDiff(%s, %s) reads back as %s, %s", hx(a), hx(b), hx(x), hx(y))
		}
		if want := refDiff(a, b); !sameText(want, got) {
			c.Fail("DumpDiff(%s, %s): %s", hx(a), hx(b), firstLineDiff(want, got))
		}
		c.Event("read-back")
	}
	var small [][]byte
	for n := 0; n <= run.N(6, 8); n++ {
		for m := 0; m < 1<<n; m++ {
			x := make([]byte, n)
			for i := range x {
				x[i] = byte(m>>i&1) * 0xF1
			}
			small = append(small, x)
		}
	}
	run.Cases("all-small-pairs", len(small), func(c *mon.Case) {
		for _, b := range small {
			check(c, small[c.Index], b)
			c.Sig("small", c.Index, b)
		}
	})
	maxN := run.N(45, 100)
	run.Cases("all-lengths", maxN+1, func(c *mon.Case) {
		base := gen.Bytes(c.R, maxN)
		for m := 0; m <= maxN; m++ {
			check(c, base[:c.Index], base[:m]) // one is a prefix of the other, shared memory
			check(c, base[:c.Index], gen.Bytes(c.R, m))
			check(c, make([]byte, c.Index), make([]byte, m))
			c.Sig("len", c.Index, m)
		}
	})
	run.Cases("one-byte", 70, func(c *mon.Case) {
		n := c.Index + 1
		a := gen.Bytes(c.R, n)
		for i := 0; i < n; i++ {
			for _, d := range []byte{1, 0x10, 0x80, 0xFF, byte(1 + c.R.IntN(255))} {
				b := append([]byte(nil), a...)
				b[i] ^= d
				check(c, a, b)
				check(c, b, a)
				c.Sig(a, i, d)
			}
		}
	})
	run.Cases("random", run.N(80000, 2000000), func(c *mon.Case) {
		a := gen.Bytes(c.R, gen.Len(c.R, 4000))
		var b []byte
		switch c.R.IntN(6) {
		case 0:
			b = append([]byte(nil), a...)
		case 1:
			b = gen.Bytes(c.R, gen.Len(c.R, 4000))
		case 2:
			b = a[c.R.IntN(len(a)+1):]
		case 3:
			b = append([]byte(nil), a...)
			for k := c.R.IntN(5); k >= 0 && len(b) > 0; k-- {
				b[c.R.IntN(len(b))] = gen.B(c.R)
			}
		default:
			b = append([]byte(nil), a...)
			if len(b) > 0 {
				b[c.R.IntN(len(b))] ^= byte(1 << c.R.IntN(8))
			}
			b = append(b, make([]byte, c.R.IntN(6))...)
		}
		check(c, a, b)
		c.Sig(a, b)
		c.Sample(func() string { return fmt.Sprintf("%s / %s", trunc(hx(a), 60), trunc(hx(b), 60)) })
	})
	// pairs that differ although a summary of the contents agrees
	run.Cases("look-alikes", run.N(60000, 1500000), func(c *mon.Case) {
		a := gen.Bytes(c.R, 1+c.R.IntN(gen.Pick(c.R, []int{8, 24, 64, 200, 2000})))
		b := gen.LookAlike(c.R, a)
		if !bytes.Equal(a, b) {
			c.Event("look-alikes")
		}
		check(c, a, b)
		c.Sig("look-alike", a, b)
	})
	lens := strLens(1 << 17)
	run.Cases("long", len(lens), func(c *mon.Case) {
		a := gen.Bytes(c.R, lens[c.Index])
		b := append([]byte(nil), a...)
		if len(b) > 0 {
			b[len(b)-1] ^= 1
		}
		check(c, a, b)
		check(c, a, a)
		if len(a) > 0 {
			check(c, a, a[:len(a)-1])
		}
		c.Sig(a)
	})
	// the same two buffers again and again, their contents changed in between
	run.Serial("in-place", run.N(6000, 100000), func(c *mon.Case) {
		a := gen.Bytes(c.R, 1+c.R.IntN(80))
		b := append([]byte(nil), a...)
		if c.R.IntN(3) == 0 {
			b = gen.Bytes(c.R, 1+c.R.IntN(80))
		}
		for k := 0; k < 6; k++ {
			check(c, a, b)
			c.Sig("in-place", a, b)
			switch c.R.IntN(4) {
			case 0:
				a[c.R.IntN(len(a))] ^= byte(1 + c.R.IntN(255))
			case 1:
				b[c.R.IntN(len(b))] ^= byte(1 + c.R.IntN(255))
			case 2:
				copy(a, b)
			default:
				copy(b, a)
			}
			c.Event("diffs-after-change-in-place")
		}
	})
	// slices of more than a megabyte, differing anywhere or nowhere
	run.Serial("huge", run.N(5, 15), func(c *mon.Case) {
		n := []int{1<<20 - 1, 1<<20 + 5, 1 << 21, 1<<20 + 1, 1<<24 + 9}[c.Index%5]
		a := gen.Bytes(c.R, n)
		b := append([]byte(nil), a...)
		b[n-1-c.R.IntN(4)] ^= 0x40
		x, y, err := readDiff(libhex.DumpDiff(a, b))
		if err != nil || !bytes.Equal(x, a) || !bytes.Equal(y, b) {
			c.Fail("the diff of two slices of %d bytes that differ near the end reads back as %d and %d bytes (%v)", n, len(x), len(y), err)
		}
		if s := libhex.DumpDiff(a, append([]byte(nil), a...)); s != "" {
			c.Fail("the diff of equal slices of %d bytes is %q", n, trunc(s, 200))
		}
		b[n-1], b[n-2], b[n-3], b[n-4] = a[n-1], a[n-2], a[n-3], a[n-4]
		b = append(b, 0)
		if x, y, err = readDiff(libhex.DumpDiff(b, a)); err != nil || !bytes.Equal(x, b) || !bytes.Equal(y, a) {
			c.Fail("the diff of slices of %d and %d bytes reads back as %d and %d bytes (%v)", n+1, n, len(x), len(y), err)
		}
		c.EventN("unequal-pairs", 2)
		c.Event("read-back")
	})
	run.Need("unequal-pairs", 30000)
	run.Need("equal-pairs", 100)
}

var pduNames = [19]string{"", "Open", "Close", "Register", "Unregister", "Get", "GetNext", "GetBulk", "TestSet", "CommitSet", "UndoSet",
	"CleanupSet", "Notify", "Ping", "IndexAllocate", "IndexDeallocate", "AddAgentCaps", "RemoveAgentCaps", "Response"}

func refPduTag(t agentx.PduTag) string {
	if t >= 1 && t <= 18 {
		return pduNames[t]
	}
	return "?" + strconv.Itoa(int(t))
}

func refReason(x agentx.CloseReason) string {
	if x >= 1 && x <= 6 {
		return []string{"Other", "ParseError", "ProtocolError", "Timeouts", "Shutdown", "ByManager"}[x-1]
	}
	return "?" + strconv.Itoa(int(x))
}

var tagNames = map[asn.Tag]string{2: "Integer32", 4: "OctetString", 5: "Null", 6: "ObjectId", 48: "Sequence", 64: "IpAddress", 65: "Counter32",
	66: "Unsigned32", 67: "TimeTicks", 68: "Opaque", 70: "Counter64", 128: "NoSuchObject", 129: "NoSuchInstance", 130: "EndOfMibView"}

func refTag(t asn.Tag) string {
	if s, ok := tagNames[t]; ok {
		return s
	}
	return "?" + strconv.Itoa(int(t))
}

func refFlags(f agentx.Flags) string {
	var out []string
	for i, s := range []string{"InstanceRegistration", "NewIndex", "AnyIndex", "NonDefaultContext", "NetworkByteOrder", "?0x20", "?0x40", "?0x80"} {
		if f>>i&1 == 1 {
			out = append(out, s)
		}
	}
	return strings.Join(out, "|")
}

var errNames = func() map[pduerror.Error]string {
	m := map[pduerror.Error]string{}
	for i, s := range strings.Fields("NoError TooBig NoSuchName BadValue ReadOnly GenError NoAccess WrongType WrongLength WrongEncoding WrongValue NoCreation InconsistentValue ResourceUnavailable CommitFailed UndoFailed AuthorizationError NotWritable InconsistentName") {
		m[pduerror.Error(i)] = s
	}
	for i, s := range strings.Fields("OpenFailed NotOpened IndexWrongType IndexAlreadyAllocated IndexNonAvailable IndexNotAllocated UnsupportedContext DuplicateRegistration UnknownRegistration UnknownAgentCaps ParseError RequestDenied ProcessingError") {
		m[pduerror.Error(256+i)] = s
	}
	return m
}()

func refError(e pduerror.Error) string {
	if s, ok := errNames[e]; ok {
		return s
	}
	return "Error(" + strconv.Itoa(int(e)) + ")"
}

func refIP(a [4]byte) string { return fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3]) }

func refValue(t asn.Tag, v interface{}) string {
	switch t {
	case 2:
		if x, ok := v.(int32); ok {
			return strconv.Itoa(int(x))
		}
	case 4:
		if x, ok := v.(string); ok {
			return x
		}
	case 6:
		if x, ok := v.([]uint32); ok {
			return refText(x)
		}
	case 64:
		if x, ok := v.([4]byte); ok {
			return refIP(x)
		}
	case 65, 66, 67:
		if x, ok := v.(uint32); ok {
			return strconv.FormatUint(uint64(x), 10)
		}
	case 68:
		if x, ok := v.([]byte); ok {
			var p []string
			for _, b := range x {
				p = append(p, strconv.Itoa(int(b)))
			}
			return "{" + strings.Join(p, " ") + "}"
		}
	case 70:
		if x, ok := v.(uint64); ok {
			return strconv.FormatUint(x, 10)
		}
	case 5, 128, 129, 130:
		return ""
	}
	return "?"
}

func refVarbind(v asn.Varbind) string {
	return "{" + refText(v.Oid) + " " + refTag(v.Tag) + ": " + refValue(v.Tag, v.Value) + "}"
}

func refRange(x agentx.SearchRange) string {
	return "{StartOid: " + refText(x.StartOid) + " EndOid: " + refText(x.EndOid) + " StartIncluded: " + strconv.Itoa(int(x.StartIncluded)) + "}"
}

func c23(run *mon.Run) {
	run.Rule("All 256 PDU types, value types, close reasons and flag sets and all 65536 error codes, address bytes exhaustively per position, and generated search ranges, varbinds and values (every type with every kind of Go value) are printed with String and Fprint and compared with the names and contents by definition; Fprint must only append. Non-trivial: each printed value; distinct by value.")
	app := func(c *mon.Case, what, want string, f func(sb *strings.Builder)) {
		var sb strings.Builder
		pre := gen.Pick(c.R, []string{"", "x", "é|", "?"})
		sb.WriteString(pre)
		f(&sb)
		if sb.String() != pre+want {
			c.Fail("Fprint of %s after %q gives %q, want %q", what, pre, trunc(sb.String(), 300), trunc(pre+want, 300))
		}
		c.Event("printed")
	}
	str := func(c *mon.Case, what, want, got string) {
		if want != got {
			c.Fail("%s prints %q, want %q", what, trunc(got, 300), trunc(want, 300))
		}
		c.Event("printed")
		c.Sig(what, got)
	}
	run.Serial("codes", 1, func(c *mon.Case) {
		kinds := map[string]map[string]int{}
		distinct := func(kind string, code int, s string) {
			if kinds[kind] == nil {
				kinds[kind] = map[string]int{}
			}
			if other, dup := kinds[kind][s]; dup {
				c.Fail("%s %d and %d both print %q", kind, other, code, s)
			}
			kinds[kind][s] = code
		}
		for rep := 0; rep < 2; rep++ { // twice: printing has no memory
			kinds = map[string]map[string]int{}
			for i := 0; i < 256; i++ {
				s := agentx.PduTag(i).String()
				distinct("PDU type", i, s)
				str(c, fmt.Sprintf("PDU type %d", i), refPduTag(agentx.PduTag(i)), s)
				s = asn.Tag(i).String()
				distinct("value type", i, s)
				str(c, fmt.Sprintf("value type %d", i), refTag(asn.Tag(i)), s)
				s = agentx.CloseReason(i).String()
				distinct("close reason", i, s)
				str(c, fmt.Sprintf("close reason %d", i), refReason(agentx.CloseReason(i)), s)
				s = agentx.Flags(i).String()
				distinct("flags", i, s)
				str(c, fmt.Sprintf("flags %#x", i), refFlags(agentx.Flags(i)), s)
				app(c, fmt.Sprintf("flags %#x", i), refFlags(agentx.Flags(i)), agentx.Flags(i).Fprint)
			}
			for i := 0; i < 65536; i++ {
				s := pduerror.Error(i).String()
				distinct("error", i, s)
				str(c, fmt.Sprintf("error %d", i), refError(pduerror.Error(i)), s)
			}
		}
	})
	run.Cases("addresses", 1024, func(c *mon.Case) {
		for k := 0; k < 16; k++ {
			a := [4]byte{gen.B(c.R), gen.B(c.R), gen.B(c.R), gen.B(c.R)}
			a[c.Index/256] = byte(c.Index)
			str(c, fmt.Sprintf("address %v", [4]byte(a)), refIP(a), ipa.String(a))
			app(c, fmt.Sprintf("address %v", a), refIP(a), func(sb *strings.Builder) { ipa.Fprint(sb, a) })
		}
	})
	octets := []byte{0, 1, 9, 10, 99, 100, 127, 255}
	run.Cases("address-grid", 512, func(c *mon.Case) {
		for _, last := range octets {
			a := [4]byte{octets[c.Index%8], octets[c.Index/8%8], octets[c.Index/64], last}
			str(c, fmt.Sprintf("address %v", a), refIP(a), ipa.String(a))
			app(c, fmt.Sprintf("address %v", a), refIP(a), func(sb *strings.Builder) { ipa.Fprint(sb, a) })
		}
	})
	run.Cases("values", 256*run.N(60, 1500), func(c *mon.Case) {
		t := asn.Tag(c.Index)
		var v interface{}
		switch z := gen.Zoo(c.R); {
		case c.R.IntN(2) == 0 && ref.IsVarbindTag(t):
			v = gen.Value(c.R, t, gen.SmallOpt)
		case c.R.IntN(3) == 0:
			v = gen.Value(c.R, gen.Pick(c.R, ref.VarbindTags), gen.SmallOpt)
		default:
			v = z[c.Index/256%len(z)]
		}
		what := fmt.Sprintf("%T value of type %d", v, t)
		app(c, what, refValue(t, v), func(sb *strings.Builder) { t.Fprint(sb, v) })
		vb := asn.Varbind{Oid: anyOID(c.R), Tag: t, Value: v}
		str(c, "varbind with "+what, refVarbind(vb), vb.String())
		app(c, "varbind with "+what, refVarbind(vb), vb.Fprint)
		if c.R.IntN(300) == 0 {
			c.Sample(func() string { return trunc(vb.String(), 300) })
		}
	})
	// long contents
	lens := strLens(run.N(70000, 1<<20))
	run.Cases("long-values", len(lens)*2, func(c *mon.Case) {
		n := lens[c.Index/2]
		for _, t := range []asn.Tag{code.TagOctetString, code.TagOpaque, code.TagObjectId} {
			var v interface{}
			switch t {
			case code.TagOctetString:
				v = string(gen.Bytes(c.R, n))
			case code.TagOpaque:
				v = gen.Bytes(c.R, n)
			default:
				v = gen.OIDn(c.R, min(n, 5000))
			}
			vb := asn.Varbind{Oid: gen.OIDn(c.R, min(n, 300)), Tag: t, Value: v}
			want := refVarbind(vb)
			if c.Index%2 == 0 {
				app(c, fmt.Sprintf("varbind with %T of length %d", v, n), want, vb.Fprint)
			} else if got := vb.String(); got != want {
				c.Fail("varbind with %T of length %d prints %q, want %q", v, n, trunc(got, 300), trunc(want, 300))
			}
		}
		sr := agentx.SearchRange{StartOid: gen.OIDn(c.R, min(n, 5000)), EndOid: gen.OIDn(c.R, min(n, 2000)), StartIncluded: gen.B(c.R)}
		str(c, "search range", refRange(sr), sr.String())
	})
	run.Cases("numbers", len(words()), func(c *mon.Case) {
		w := words()[c.Index]
		for _, t := range ref.VarbindTags {
			var v interface{}
			switch t {
			case 2:
				v = int32(w)
			case 65, 66, 67:
				v = w
			case 70:
				v = uint64(w)<<32 | uint64(w)
			case 64:
				v = [4]byte{byte(w), byte(w >> 8), byte(w >> 16), byte(w >> 24)}
			case 6:
				v = []uint32{w, 1, w}
			case 68:
				v = []byte{byte(w), byte(w >> 8)}
			default:
				continue
			}
			vb := asn.Varbind{Oid: []uint32{1, w}, Tag: t, Value: v}
			str(c, fmt.Sprintf("varbind %d %v", t, v), refVarbind(vb), vb.String())
		}
		sr := agentx.SearchRange{StartOid: []uint32{w}, EndOid: []uint32{1, 3, w}, StartIncluded: byte(w)}
		str(c, "range", refRange(sr), sr.String())
	})
	run.Cases("ranges", run.N(40000, 800000), func(c *mon.Case) {
		sr := agentx.SearchRange{StartOid: anyOID(c.R), EndOid: anyOID(c.R), StartIncluded: gen.B(c.R)}
		str(c, "search range", refRange(sr), sr.String())
		app(c, "search range", refRange(sr), sr.Fprint)
		c.Sample(func() string { return trunc(sr.String(), 300) })
	})
	// OIDs and octets the caller keeps and changes in place between two prints
	run.Serial("in-place", run.N(6000, 100000), func(c *mon.Case) {
		r := c.R
		id, end := gen.OIDn(r, 1+r.IntN(20)), gen.OIDn(r, 1+r.IntN(20))
		val, op := gen.OIDn(r, 1+r.IntN(30)), gen.Bytes(r, 1+r.IntN(40))
		vb := asn.Varbind{Oid: id, Tag: code.TagObjectId, Value: val}
		vo := asn.Varbind{Oid: id, Tag: code.TagOpaque, Value: op}
		sr := agentx.SearchRange{StartOid: id, EndOid: end, StartIncluded: gen.B(r)}
		for k := 0; k < 6; k++ {
			// each kind on its own, then all in turn
			str(c, "varbind", refVarbind(vb), vb.String())
			str(c, "varbind with octets", refVarbind(vo), vo.String())
			str(c, "range", refRange(sr), sr.String())
			app(c, "varbind", refVarbind(vb), vb.Fprint)
			app(c, "varbind with octets", refVarbind(vo), vo.Fprint)
			app(c, "range", refRange(sr), sr.Fprint)
			app(c, "OID value", refText(val), func(sb *strings.Builder) { code.TagObjectId.Fprint(sb, val) })
			app(c, "opaque value", refValue(code.TagOpaque, op), func(sb *strings.Builder) { code.TagOpaque.Fprint(sb, op) })
			what := r.IntN(6)
			if what == 5 {
				copy(id, gen.LookAlikeOID(r, id))
				copy(end, gen.LookAlikeOID(r, end))
				copy(val, gen.LookAlikeOID(r, val))
				copy(op, gen.LookAlike(r, op))
			}
			if what == 0 || what == 4 {
				id[r.IntN(len(id))] ^= 1 << r.IntN(32)
			}
			if what == 1 || what == 4 {
				end[r.IntN(len(end))] ^= 1 << r.IntN(32)
			}
			if what == 2 || what == 4 {
				val[r.IntN(len(val))] ^= 1 << r.IntN(32)
			}
			if what == 3 || what == 4 {
				op[r.IntN(len(op))] ^= 1 << r.IntN(8)
			}
			// one printer only, immediately after the change and once more after another
			if k%2 == 1 {
				one := []func(){
					func() { str(c, "varbind", refVarbind(vb), vb.String()) },
					func() { str(c, "varbind with octets", refVarbind(vo), vo.String()) },
					func() { str(c, "range", refRange(sr), sr.String()) },
					func() { app(c, "varbind", refVarbind(vb), vb.Fprint) },
					func() { app(c, "varbind with octets", refVarbind(vo), vo.Fprint) },
					func() { app(c, "range", refRange(sr), sr.Fprint) },
					func() {
						app(c, "OID value", refText(val), func(sb *strings.Builder) { code.TagObjectId.Fprint(sb, val) })
					},
					func() {
						app(c, "opaque value", refValue(code.TagOpaque, op), func(sb *strings.Builder) { code.TagOpaque.Fprint(sb, op) })
					},
				}[r.IntN(8)]
				for j := 0; j < 3; j++ {
					one()
					id[r.IntN(len(id))] ^= 1 << r.IntN(32)
					end[r.IntN(len(end))] ^= 1 << r.IntN(32)
					val[r.IntN(len(val))] ^= 1 << r.IntN(32)
					op[r.IntN(len(op))] ^= 1 << r.IntN(8)
				}
			}
			c.Event("printed-after-change-in-place")
		}
	})
	run.Need("printed", 200000)
}

// mibTable is the excerpt of the standard MIB modules the library predefines.
var mibTable = map[string]string{
	"internet": "1.3.6.1", "directory": "1.3.6.1.1", "mgmt": "1.3.6.1.2", "experimental": "1.3.6.1.3", "private": "1.3.6.1.4",
	"security": "1.3.6.1.5", "snmpV2": "1.3.6.1.6", "mib2": "1.3.6.1.2.1", "enterprises": "1.3.6.1.4.1",
	"system": "1.3.6.1.2.1.1", "sysDescr": "1.3.6.1.2.1.1.1", "sysOid": "1.3.6.1.2.1.1.2", "sysUpTime": "1.3.6.1.2.1.1.3",
	"sysContact": "1.3.6.1.2.1.1.4", "sysName": "1.3.6.1.2.1.1.5", "sysLocation": "1.3.6.1.2.1.1.6", "sysServices": "1.3.6.1.2.1.1.7",
	"sysORLastChange": "1.3.6.1.2.1.1.8", "sysORTable": "1.3.6.1.2.1.1.9", "sysOREntry": "1.3.6.1.2.1.1.9.1",
	"sysORIndex": "1.3.6.1.2.1.1.9.1.1", "sysORID": "1.3.6.1.2.1.1.9.1.2", "sysORDescr": "1.3.6.1.2.1.1.9.1.3", "sysORUpTime": "1.3.6.1.2.1.1.9.1.4",
	"interfaces": "1.3.6.1.2.1.2", "ifNumber": "1.3.6.1.2.1.2.1", "ifTable": "1.3.6.1.2.1.2.2", "ifEntry": "1.3.6.1.2.1.2.2.1",
	"ifIndex": "1.3.6.1.2.1.2.2.1.1", "ifDescr": "1.3.6.1.2.1.2.2.1.2", "ifType": "1.3.6.1.2.1.2.2.1.3", "ifMtu": "1.3.6.1.2.1.2.2.1.4",
	"ifSpeed": "1.3.6.1.2.1.2.2.1.5", "ifPhysAddress": "1.3.6.1.2.1.2.2.1.6", "ifAdminStatus": "1.3.6.1.2.1.2.2.1.7",
}

func c25(run *mon.Run) {
	run.Rule("The whole name table is compared with the standard assignments, and again after each operation of a random sequence (encode, decode, tree add/get/next/remove/iterate, print, compare, clone, concatenate, sort) that is given slices of the table itself and whose results are then overwritten. Non-trivial: an operation that received an OID of the table; distinct by (operation, name).")
	check := func(c *mon.Case, after string) {
		seen := map[string]string{}
		for name, id := range oid.Name {
			text := refText(id)
			if other, dup := seen[text]; dup {
				c.Fail("after %s: %s and %s are both %s", after, name, other, text)
			}
			seen[text] = name
			if want, known := mibTable[name]; known && text != want {
				c.Fail("after %s: %s is %s, standard %s", after, name, text, want)
			}
		}
		for name, want := range mibTable {
			if id, ok := oid.Name[name]; !ok {
				c.Fail("after %s: %s (%s) is not defined", after, name, want)
			} else if len(id) == 0 {
				c.Fail("after %s: %s is empty", after, name)
			}
		}
		c.EventN("names-checked", len(mibTable))
	}
	run.Serial("table", 1, func(c *mon.Case) {
		check(c, "start")
		for name, id := range oid.Name {
			c.Sig(name)
			c.Sample(func() string { return name + " = " + refText(id) })
		}
	})
	var names []string
	for n := range mibTable {
		names = append(names, n)
	}
	sortStrings(names)
	run.Serial("operations", run.N(400, 8000), func(c *mon.Case) {
		t := oid.NewTree()
		r := c.R
		pick := func() (string, []uint32) {
			n := gen.Pick(r, names)
			return n, oid.Name[n]
		}
		for k := 0; k < 40; k++ {
			n, id := pick()
			_, id2 := pick()
			op := r.IntN(12)
			switch op {
			case 0, 1:
				p := agentx.Pdu{Tag: code.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: id, Tag: code.TagObjectId, Value: id2}}}
				switch r.IntN(4) {
				case 1:
					p = agentx.Pdu{Tag: code.TagGetNext, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: id, EndOid: id2}, {StartOid: id2, StartIncluded: 1}}}
				case 2:
					p = agentx.Pdu{Tag: code.TagRegister, Params: agentx.RegisterParams{Subtree: id, RangeSubid: byte(r.IntN(10)), UpperBound: 9}}
				case 3:
					p = agentx.Pdu{Tag: code.TagOpen, Params: agentx.OpenParams{Oid: id, Description: n}}
				}
				if op == 1 {
					p.Flags = code.FlagNetworkByteOrder
				}
				b, ok := agentx.EncodePdu(p)
				if r.IntN(2) == 0 {
					b, ok = agentx.EncodePduDbg(p, nop{})
				}
				if !ok {
					c.Fail("a PDU with the OIDs %s, %s is refused", refText(id), refText(id2))
				}
				q, _ := agentx.DecodePduHeader(b[:20])
				agentx.DecodePduPayload(&q, b[20:])
				p.String(1)
				q.String(0)
				fillBytes(b, 0xEE)
				scribbleAll(&q)
			case 2:
				x := oid.Clone(id)
				x = append(x, 7)
				for i := range x {
					x[i] = 0xEEEE
				}
			case 3:
				x := oid.Cat(id, 1, 2)
				x = append(x, 7)
				for i := range x {
					x[i] = 0xEEEE
				}
			case 4:
				t.AddNode(id)
			case 5:
				t.AddNode(oid.Cat(id, uint32(r.IntN(3))))
			case 6:
				t.RemoveNode(id)
			case 7:
				if x := t.GetNextNode(id, id2, r.IntN(2) == 0); x != nil {
					x.Data = n
				}
			case 8:
				t.ForRangeLeaves(func(x []uint32, _ *oid.Node) {
					for i := range x {
						x[i] = 0xEEEE
					}
				})
			case 9:
				oid.String(id)
				var sb strings.Builder
				oid.Fprint(&sb, id)
				oid.HasPrefix(id, id2...)
				oid.Compare(id, id2)
				oid.Lt(id, id2)
			case 10:
				if x := t.GetNode(id); x != nil {
					x.Data = id
				}
			default:
				_ = (asn.Varbind{Oid: id, Tag: code.TagObjectId, Value: id2}).String()
				_ = agentx.SearchRange{StartOid: id, EndOid: id2}.String()
				code.TagObjectId.IsValidValue(id)
			}
			c.Event("operations-on-table-slices")
			c.Sig(op, n)
			if k%8 == 7 {
				check(c, "an operation sequence")
			}
		}
		t.Clear()
		check(c, "an operation sequence")
	})
	run.Need("operations-on-table-slices", 5000)
	run.Need("names-checked", 1000)
}

// refPdu is the printed PDU by definition.
func refPdu(p agentx.Pdu, depth int) string {
	ind := func(d int) string { return strings.Repeat("    ", min(d, 8)) }
	if depth > 8 {
		depth = 8
	}
	var out []string
	line := func(d int, name, val string) { out = append(out, ind(d)+name+": "+val) }
	list := func(id []uint32) string {
		if len(id) == 0 {
			return "<empty>"
		}
		return refText(id)
	}
	u := func(x uint32) string { return strconv.FormatUint(uint64(x), 10) }
	line(depth, "Tag", refPduTag(p.Tag))
	line(depth, "Flags", refFlags(p.Flags))
	line(depth, "SessionId", u(p.SessionId))
	line(depth, "TransactionId", u(p.TransactionId))
	line(depth, "PacketId", u(p.PacketId))
	line(depth, "PayloadSize", strconv.Itoa(int(p.PayloadSize)))
	line(depth, "Context", p.Context)
	if p.Params == nil {
		line(depth, "Params", "<nil>")
	} else {
		line(depth, "Params", "")
	}
	d := depth + 1
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		line(d, "Timeout", u(uint32(x.Timeout)))
		line(d, "Oid", list(x.Oid))
		line(d, "Description", x.Description)
	case agentx.CloseParams:
		line(d, "Reason", refReason(x.Reason))
	case agentx.RegisterParams:
		line(d, "Timeout", u(uint32(x.Timeout)))
		line(d, "Priority", u(uint32(x.Priority)))
		line(d, "RangeSubid", u(uint32(x.RangeSubid)))
		line(d, "Subtree", list(x.Subtree))
		line(d, "UpperBound", u(x.UpperBound))
	case agentx.UnregisterParams:
		line(d, "Priority", u(uint32(x.Priority)))
		line(d, "RangeSubid", u(uint32(x.RangeSubid)))
		line(d, "Subtree", list(x.Subtree))
		line(d, "UpperBound", u(x.UpperBound))
	case agentx.GetBulkParams:
		line(d, "NonRepeaters", strconv.Itoa(int(x.NonRepeaters)))
		line(d, "MaxRepeatitions", strconv.Itoa(int(x.MaxRepeatitions)))
	case agentx.AddAgentCapsParams:
		line(d, "Oid", list(x.Oid))
		line(d, "Description", x.Description)
	case agentx.RemoveAgentCapsParams:
		line(d, "Oid", list(x.Oid))
	case agentx.ResponseParams:
		line(d, "SysUpTime", u(x.SysUpTime))
		line(d, "Error", refError(x.Error))
		line(d, "Index", strconv.Itoa(int(x.Index)))
	}
	if len(p.Ranges) == 0 {
		line(depth, "Ranges", "<empty>")
	} else {
		line(depth, "Ranges", "")
		for _, x := range p.Ranges {
			out = append(out, ind(d)+refRange(x))
		}
	}
	if len(p.Varbinds) == 0 {
		line(depth, "Varbinds", "<empty>")
	} else {
		line(depth, "Varbinds", "")
		for _, x := range p.Varbinds {
			out = append(out, ind(d)+refVarbind(x))
		}
	}
	return strings.Join(out, "\n")
}

// tweak changes one numeric field, OID or list length and says which.
func tweak(r gen.R, p agentx.Pdu) (agentx.Pdu, string) {
	p = ref.Clone(p)
	oidTweak := func(id []uint32) []uint32 {
		if len(id) == 0 || r.IntN(3) == 0 {
			return append(id, gen.U32(r))
		}
		id[r.IntN(len(id))] ^= 1 << r.IntN(32)
		return id
	}
	switch r.IntN(12) {
	case 0:
		p.Tag ^= 1 << r.IntN(8)
		return p, "Tag"
	case 1:
		p.Flags ^= 1 << r.IntN(8)
		return p, "Flags"
	case 2:
		p.SessionId ^= 1 << r.IntN(32)
		return p, "SessionId"
	case 3:
		p.TransactionId ^= 1 << r.IntN(32)
		return p, "TransactionId"
	case 4:
		p.PacketId ^= 1 << r.IntN(32)
		return p, "PacketId"
	case 5:
		p.PayloadSize ^= 1 << r.IntN(32)
		return p, "PayloadSize"
	case 6:
		p.Ranges = append(p.Ranges, gen.Range(r))
		return p, "number of ranges"
	case 7:
		p.Varbinds = append(p.Varbinds, gen.Varbind(r, gen.SmallOpt))
		return p, "number of varbinds"
	case 8:
		if len(p.Ranges) > 0 {
			x := &p.Ranges[r.IntN(len(p.Ranges))]
			switch r.IntN(3) {
			case 0:
				x.StartOid = oidTweak(x.StartOid)
				return p, "a range start"
			case 1:
				x.EndOid = oidTweak(x.EndOid)
				return p, "a range end"
			default:
				x.StartIncluded ^= 1 << r.IntN(8)
				return p, "a range include"
			}
		}
	case 9:
		if len(p.Varbinds) > 0 {
			x := &p.Varbinds[r.IntN(len(p.Varbinds))]
			if r.IntN(2) == 0 {
				x.Oid = oidTweak(x.Oid)
				return p, "a varbind OID"
			}
			switch v := x.Value.(type) {
			case int32:
				if x.Tag == code.TagInteger32 {
					x.Value = v ^ 1<<r.IntN(32)
					return p, "a varbind value"
				}
			case uint32:
				if x.Tag == code.TagCounter32 || x.Tag == code.TagGauge32 || x.Tag == code.TagTimeTicks {
					x.Value = v ^ 1<<r.IntN(32)
					return p, "a varbind value"
				}
			case uint64:
				if x.Tag == code.TagCounter64 {
					x.Value = v ^ 1<<r.IntN(64)
					return p, "a varbind value"
				}
			case []uint32:
				if x.Tag == code.TagObjectId {
					x.Value = oidTweak(v)
					return p, "a varbind value"
				}
			}
		}
	}
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		if r.IntN(2) == 0 {
			x.Timeout ^= 1 << r.IntN(8)
		} else {
			x.Oid = oidTweak(x.Oid)
		}
		p.Params = x
	case agentx.CloseParams:
		x.Reason ^= 1 << r.IntN(8)
		p.Params = x
	case agentx.RegisterParams:
		switch r.IntN(5) {
		case 0:
			x.Timeout ^= 1 << r.IntN(8)
		case 1:
			x.Priority ^= 1 << r.IntN(8)
		case 2:
			x.RangeSubid ^= 1 << r.IntN(8)
		case 3:
			x.UpperBound ^= 1 << r.IntN(32)
		default:
			x.Subtree = oidTweak(x.Subtree)
		}
		p.Params = x
	case agentx.UnregisterParams:
		switch r.IntN(4) {
		case 0:
			x.Priority ^= 1 << r.IntN(8)
		case 1:
			x.RangeSubid ^= 1 << r.IntN(8)
		case 2:
			x.UpperBound ^= 1 << r.IntN(32)
		default:
			x.Subtree = oidTweak(x.Subtree)
		}
		p.Params = x
	case agentx.GetBulkParams:
		if r.IntN(2) == 0 {
			x.NonRepeaters ^= 1 << r.IntN(16)
		} else {
			x.MaxRepeatitions ^= 1 << r.IntN(16)
		}
		p.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = oidTweak(x.Oid)
		p.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = oidTweak(x.Oid)
		p.Params = x
	case agentx.ResponseParams:
		switch r.IntN(3) {
		case 0:
			x.SysUpTime ^= 1 << r.IntN(32)
		case 1:
			x.Error ^= 1 << r.IntN(16)
		default:
			x.Index ^= 1 << r.IntN(16)
		}
		p.Params = x
	default:
		p.SessionId++
		return p, "SessionId"
	}
	return p, "a parameter"
}

// oneLine removes line breaks from the strings of a PDU.
func oneLine(p agentx.Pdu) agentx.Pdu {
	f := func(s string) string { return strings.ReplaceAll(s, "\n", "_") }
	p = ref.Clone(p)
	p.Context = f(p.Context)
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Description = f(x.Description)
		p.Params = x
	case agentx.AddAgentCapsParams:
		x.Description = f(x.Description)
		p.Params = x
	}
	for i := range p.Varbinds {
		if s, ok := p.Varbinds[i].Value.(string); ok {
			p.Varbinds[i].Value = f(s)
		}
	}
	return p
}

func c26(run *mon.Run) {
	run.Rule("PDUs of all families, PDUs with defects (unknown types, foreign or missing parameters, values that do not fit) and cluttered PDUs are printed at depths 0 to 40 and up to the largest int, and compared with the text by definition; each is also printed with one numeric field, OID or list length changed and must look different. Printing must leave the PDU alone. Non-trivial: each PDU; distinct by text.")
	depthOf := func(r gen.R) int {
		switch r.IntN(6) {
		case 0, 1:
			return r.IntN(3)
		case 2, 3:
			return r.IntN(12)
		case 4:
			return r.IntN(40)
		default:
			return gen.Pick(r, []int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 4, math.MaxInt32, 1 << 20, 8, 9, 7, 1000})
		}
	}
	// kinds of parameters the reference can print
	printable := func(p agentx.Pdu) bool {
		switch p.Params.(type) {
		case nil, agentx.NoParams, agentx.OpenParams, agentx.CloseParams, agentx.RegisterParams, agentx.UnregisterParams, agentx.GetBulkParams, agentx.AddAgentCapsParams, agentx.RemoveAgentCapsParams, agentx.ResponseParams:
			return true
		}
		return false
	}
	check := func(c *mon.Case, p agentx.Pdu, depth int) {
		got := p.String(depth)
		c.Event("printed")
		if !printable(p) {
			c.Event("foreign-params")
			return
		}
		if want := refPdu(p, depth); !sameText(want, got) {
			c.Fail("printed at depth %d: %s\nPDU: %s", depth, firstLineDiff(want, got), show(p))
		}
		c.Sig(got)
	}
	for _, fam := range Families(run, run.N(40000, 800000), run.N(4, 1)) {
		fam := fam
		run.Cases(fam.Name, fam.N, func(c *mon.Case) { check(c, fam.Make(c.Index, c.R), depthOf(c.R)) })
	}
	run.Cases("depths", 18*60, func(c *mon.Case) {
		p := gen.PduOf(c.R, agentx.PduTag(1+c.Index%18), gen.SmallOpt)
		check(c, p, c.Index/18)
	})
	run.Cases("any", run.N(60000, 1500000), func(c *mon.Case) {
		p := gen.AnyPdu(c.R, gen.SmallOpt)
		if c.R.IntN(10) == 0 {
			p.Tag = agentx.PduTag(c.R.IntN(256))
		}
		s := snap(&p)
		check(c, p, depthOf(c.R))
		if d := s.diff(&p); d != "" {
			c.Fail("printing changed the PDU: %s", d)
		}
		c.Sample(func() string { return p.String(0) })
	})
	run.Cases("pairs", run.N(80000, 2000000), func(c *mon.Case) {
		p := oneLine(gen.Clutter(c.R, gen.Pdu(c.R, gen.SmallOpt)))
		q, what := tweak(c.R, p)
		q = oneLine(q)
		d := depthOf(c.R)
		if a, b := p.String(d), q.String(d); a == b {
			c.Fail("two PDUs that differ in %s print the same: %q", what, trunc(a, 1500))
		}
		c.Event("different-pairs")
		c.Event("differs-in-" + what)
	})
	// one PDU value whose lists, OIDs and values are changed in place between prints
	run.Serial("in-place", run.N(8000, 150000), func(c *mon.Case) {
		r := c.R
		p := gen.Pdu(r, gen.SmallOpt)
		if len(p.Varbinds) == 0 && r.IntN(2) == 0 {
			p = gen.Clutter(r, p)
		}
		p = ref.Clone(p)
		d := r.IntN(4)
		ptr := &p
		for k := 0; k < 6; k++ {
			before := *ptr
			check(c, *ptr, d)
			cs := cells(ptr)
			if len(cs) > 0 {
				x := cs[r.IntN(len(cs))]
				if x.u != nil && len(*x.u) > 1 && r.IntN(3) == 0 {
					copy(*x.u, gen.LookAlikeOID(r, *x.u))
				} else if x.u != nil && len(*x.u) > 0 {
					(*x.u)[r.IntN(len(*x.u))] ^= 1 << r.IntN(32)
				}
				if x.b != nil && len(*x.b) > 1 && r.IntN(3) == 0 {
					copy(*x.b, gen.LookAlike(r, *x.b))
				} else if x.b != nil && len(*x.b) > 0 {
					(*x.b)[r.IntN(len(*x.b))] ^= 1 << r.IntN(8)
				}
			}
			if r.IntN(2) == 0 {
				check(c, before, d)
			}
			if n := len(ptr.Varbinds); n > 0 && r.IntN(2) == 0 {
				if i := r.IntN(n); r.IntN(2) == 0 {
					ptr.Varbinds[i] = gen.Varbind(r, gen.SmallOpt)
				} else {
					ptr.Varbinds[i].Value = gen.Value(r, ptr.Varbinds[i].Tag, gen.SmallOpt)
				}
			}
			if n := len(ptr.Ranges); n > 0 && r.IntN(2) == 0 {
				ptr.Ranges[r.IntN(n)] = gen.Range(r)
			}
			c.Event("printed-after-change-in-place")
		}
	})
	run.Need("printed", 50000)
	run.Need("different-pairs", 20000)
}
