package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/alexispb/mygosnmp/logger"

	"verif/harness/gen"
	"verif/harness/mon"
)

func init() {
	reg("C27", c27)
	reg("C27child", c27child)
	NoDict["C27"] = true
	NoDict["C27child"] = true
}

// logCall is one call on the console logger.
type logCall struct {
	formatted bool
	format    string
	args      []interface{}
}

func (l logCall) text() string {
	if l.formatted {
		return fmt.Sprintf(l.format, l.args...)
	}
	return l.format
}

func (l logCall) do(log logger.Log) {
	if l.formatted {
		log.Writef(l.format, l.args...)
	} else {
		log.Write(l.format)
	}
}

// someCall makes a logger call whose text contains id; multi permits messages
// of several lines.
func someCall(r gen.R, id string, multi bool) logCall {
	clean := func(s string) string {
		if multi {
			return s
		}
		return strings.ReplaceAll(s, "\n", "~")
	}
	junk := func() string {
		switch r.IntN(8) {
		case 0:
			return ""
		case 1:
			return gen.Pick(r, []string{"%", "%d", "100%", "%s %v %!", "%%", "%n", "%1$s", "%[3]d", "%!(EXTRA int=1)", "%*d"})
		case 2:
			return gen.Pick(r, []string{"\n", "a\nb", "\n\n", "\r", "\r\n", "\x00", "\x1b[31m", "\\n", "é┌", "\xff\xfe", "\t", " "})
		case 3:
			return strings.Repeat("long ", r.IntN(3000))
		default:
			return gen.Str(r, 60)
		}
	}
	if r.IntN(2) == 0 {
		return logCall{false, clean(junk() + id + junk()), nil}
	}
	switch r.IntN(5) {
	case 0:
		return logCall{true, "%s" + id + "%s", []interface{}{clean(junk()), clean(junk())}}
	case 1:
		return logCall{true, id + " %d|%5.2f|%x|%v|%q", []interface{}{r.Int64(), r.Float64(), r.Uint32(), []int{1, 2}, junk()}}
	case 2:
		return logCall{true, id + " 100%% %[2]s %[1]s", []interface{}{clean(junk()), "second"}}
	case 3:
		return logCall{true, clean(strings.ReplaceAll(junk(), "%", "%%")) + id, nil}
	default:
		return logCall{true, "%s", []interface{}{clean(junk() + id + junk())}}
	}
}

// script is what a child process logs, derived from its seed alone.
func script(c *mon.Case, goroutines, n int) (calls [][]logCall) {
	for g := 0; g < goroutines; g++ {
		var l []logCall
		for i := 0; i < n; i++ {
			if i > 0 && c.R.IntN(6) == 0 { // the same message again, at once or later
				k := i - 1
				if c.R.IntN(2) == 0 {
					k = c.R.IntN(i)
				}
				l = append(l, l[k])
				continue
			}
			if goroutines == 1 && c.R.IntN(10) == 0 { // nothing but the newline, or hardly more
				l = append(l, logCall{c.R.IntN(2) == 0, gen.Pick(c.R, []string{"", "", "\n", " ", "\r", "\x00", "."}), nil})
				continue
			}
			x := someCall(c.R, fmt.Sprintf("<g%d-m%d>", g, i), goroutines == 1)
			if c.R.IntN(50) == 0 { // beyond any buffer size
				big := strings.Repeat("0123456789abcde ", 1<<17)[:gen.Pick(c.R, []int{4095, 4096, 8191, 32768, 65535, 65536, 65537, 100001, 1 << 17, 1 << 18, 1<<20 + 1})]
				x = logCall{false, fmt.Sprintf("<g%d-m%d>", g, i) + big + ".", nil}
				if c.R.IntN(2) == 0 {
					x = logCall{true, "%s<%d-%d>%s", []interface{}{big, g, i, "."}}
				}
			}
			l = append(l, x)
		}
		calls = append(calls, l)
	}
	return
}

func c27Shape(index int) (goroutines, n int) {
	return []int{1, 1, 2, 4, 8, 16}[index%6], []int{40, 200, 150, 100, 80, 60}[index%6]
}

// c27child prints its script on standard output and exits at once.
func c27child(run *mon.Run) {
	run.Rule("prints its script")
	run.Cases("child", 1, func(c *mon.Case) {
		g, n := c27Shape(c.Index)
		calls := script(c, g, n)
		var wg sync.WaitGroup
		common := logger.Console()
		for _, l := range calls {
			wg.Add(1)
			go func(l []logCall) {
				defer wg.Done()
				log := logger.Console()
				if c.Index/6%3 == 1 {
					log = common
				}
				for i, x := range l {
					if c.Index/6%3 == 2 {
						log = logger.Console()
					}
					x.do(log)
					if i%5 == 0 {
						runtime.Gosched()
					}
				}
			}(l)
		}
		wg.Wait()
	})
}

func c27(run *mon.Run) {
	run.Rule("Child processes log generated messages (percent signs, line breaks, control and non-UTF-8 bytes, long texts) on the console logger from 1 to 16 goroutines and exit right after the last call; their standard output (a file or a pipe) is compared byte for byte with the messages by definition, or, with several goroutines, line by line: each message one whole line, exactly once, per goroutine in order. Non-trivial: each message; distinct by text.")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	exe, err := os.Executable()
	if err != nil {
		run.AddError(err.Error())
		return
	}
	dir, err := os.MkdirTemp("", "c27")
	if err != nil {
		run.AddError(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	verify := func(c *mon.Case, calls [][]logCall, out []byte) {
		if len(calls) == 1 {
			var want bytes.Buffer
			for _, x := range calls[0] {
				want.WriteString(x.text())
				want.WriteByte('\n')
			}
			if !bytes.Equal(want.Bytes(), out) {
				c.Fail("output differs: %s", textDiff(want.Bytes(), out))
			}
			c.EventN("messages-verbatim", len(calls[0]))
			for _, x := range calls[0] {
				c.Sig(x.format, x.formatted)
			}
			return
		}
		pos := make([]int, len(calls))
		lines := strings.Split(string(out), "\n")
		if lines[len(lines)-1] != "" {
			c.Fail("the output does not end with a newline but with %q", trunc(lines[len(lines)-1], 200))
		}
		switches, last := 0, -1
		for k, line := range lines[:len(lines)-1] {
			found := -1
			for g := range calls {
				if pos[g] < len(calls[g]) && calls[g][pos[g]].text() == line {
					found = g
					break
				}
			}
			if found < 0 {
				c.Fail("with %d goroutines, line %d %q is not the next message of any goroutine", len(calls), k, trunc(line, 300))
			}
			pos[found]++
			if found != last {
				switches++
			}
			last = found
			c.Event("messages-in-order")
		}
		for g := range calls {
			if pos[g] != len(calls[g]) {
				c.Fail("with %d goroutines, goroutine %d: %d of %d messages appeared", len(calls), g, pos[g], len(calls[g]))
			}
		}
		c.EventN("goroutine-switches-seen", switches)
		c.Sig(c.Section, c.Index, switches)
	}
	n := run.N(180, 2400)
	if run.Variant != "plain" {
		n = run.N(48, 500)
	}
	old := run.Workers
	run.Workers = 3
	run.Cases("processes", n, func(c *mon.Case) {
		seed := c.Run.Seed*100000 + uint64(c.Index)
		res := filepath.Join(dir, fmt.Sprintf("r%d.json", c.Index))
		cmd := exec.Command(exe, "-prop", "C27child", "-tier", run.Tier, "-variant", run.Variant, "-seed", fmt.Sprint(seed), "-section", "child", "-index", fmt.Sprint(c.Index), "-out", res)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		var out []byte
		var err error
		if c.Index%2 == 0 {
			var pipe bytes.Buffer
			cmd.Stdout = &pipe
			err = cmd.Run()
			out = pipe.Bytes()
		} else {
			name := filepath.Join(dir, fmt.Sprintf("o%d", c.Index))
			f, e := os.Create(name)
			if e != nil {
				c.Error("%v", e)
			}
			cmd.Stdout = f
			err = cmd.Run()
			f.Close()
			out, _ = os.ReadFile(name)
			os.Remove(name)
		}
		if err != nil {
			ee, ok := err.(*exec.ExitError)
			if ok && ee.ExitCode() == 66 {
				return // the race detector reported; the driver reads its log
			}
			if ok && (ee.ExitCode() == 1 || strings.Contains(stderr.String(), "mygosnmp")) {
				rb, _ := os.ReadFile(res)
				c.Fail("the logging process failed: %s %s", trunc(stderr.String(), 2000), trunc(string(rb), 2000))
			}
			c.Error("child: %v %s", err, trunc(stderr.String(), 1000))
		}
		g, m := c27Shape(c.Index)
		child := run.Replica("C27child", seed, "child", c.Index)
		verify(c, script(child, g, m), out)
		c.Event("processes")
		c.Sample(func() string {
			return fmt.Sprintf("%d goroutines x %d messages, %d bytes, output starts %q", g, m, len(out), trunc(string(out), 200))
		})
	})
	run.Workers = old
	run.Need("processes", 30)
	run.Need("messages-verbatim", 1000)
	run.Need("messages-in-order", 3000)
	run.Need("goroutine-switches-seen", 1)
}

func textDiff(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	at := func(b []byte) string { return fmt.Sprintf("%q", b[max(0, min(i, len(b))-40):min(len(b), i+80)]) }
	return fmt.Sprintf("at byte %d want ...%s, got ...%s (%d and %d bytes)", i, at(want), at(got), len(want), len(got))
}
