//go:build go1.23

package main

import (
	"fmt"
	"path"
	"strings"
)

// P24: options that make no sense are refused; extreme ones change nothing.

// anyProgram lists every program of the repository.
var anyProgram = append(append([]string{"dumpnodeindex", "dumpwayindex"}, writers...), readers...)

func genOptions(c *Case, r *R) {
	cmd := pick(r, anyProgram...)
	switch cmd {
	case "dumpnodeindex":
		genNodeIdxCase(c, r)
		c.P["p"] = 1
	case "dumpwayindex":
		genWayIdxCase(c, r)
		c.P["p"] = 1
	case "blockcount", "entitycount", "entityfind":
		genReader(c, r, cmd)
	default:
		genWriter(c, r, cmd)
		if c.P["p"] > 3 {
			c.P["p"] = 2
		}
		delete(c.P, "m")
		c.S["refresh"] = pick(r, "0", "0", "100ms")
	}
	c.S["cmd"] = cmd
	writer := c.S["refresh"] != ""
	var ks []string
	add := func(n int, k string) {
		for ; n > 0; n-- {
			ks = append(ks, k)
		}
	}
	if strings.HasPrefix(cmd, "dump") {
		add(4, "part")
		add(1, "half-part")
	} else {
		add(3, "workers")
	}
	add(1, "stray")
	add(1, "help")
	add(1, "without")
	add(1, "no-input")
	add(2, "profile")
	add(2, "profile-over")
	if writer {
		add(4, "same-file")
		add(1, "refresh")
		add(1, "no-directory")
	}
	switch cmd {
	case "relindex":
		add(4, "passes")
		add(3, "temporary")
	case "rewritenodes":
		add(2, "memory")
		add(2, "timing")
		add(1, "temporary")
	case "wayindex":
		add(3, "alignment")
		add(1, "temporary")
	case "nodeindex":
		add(1, "temporary")
	}
	k := pick(r, ks...)
	c.S["what"] = k
	switch k {
	case "workers":
		c.S["v"] = pick(r, "0", "0", "-1", "-7", "40", "150", "x")
	case "passes":
		c.S["v"] = pick(r, "0", "0", "-1", "-1", "-5", "60", "200", "x")
	case "memory":
		c.S["v"] = pick(r, "0", "0", "17592186044416", "17592186044417", "18446744073709551615", "-1", "1000000")
	case "timing":
		c.S["v"] = pick(r, "0", "-1", "NaN", "Inf", "-Inf", "1", "1e300", "1e-300", "0.999", "x")
		c.P["tsc"] = int64(r.Intn(4))
	case "alignment":
		c.S["v"] = pick(r, "-1", "-1", "-64", "12", "16", "20", "64", "64", "65", "100", "x")
	case "refresh":
		c.S["v"] = pick(r, "-1s", "-1ns", "5h", "x")
	case "part":
		n := pick(r, int64(0), 1, 2, 3, 5, 1000, 1<<40, 1<<62)
		i := pick(r, int64(0), n-1, n, n+1, n/2, -1, -n)
		c.S["v"] = fmt.Sprintf("%d/%d", i, n)
	case "half-part":
		c.S["v"] = pick(r, "--sub-index-index", "--sub-index-count")
	case "stray":
		c.S["v"] = pick(r, "in.pbf", "7", "--", "--no-such-option", "-q")
	case "help":
		c.S["v"] = pick(r, "-h", "--help")
		c.P["nth"] = int64(r.Intn(8))
		c.P["alone"] = int64(r.Intn(2))
	case "without":
		c.P["nth"] = int64(r.Intn(8))
	case "no-input":
		c.S["v"] = pick(r, "missing", "", "/w", "no/such/in")
		c.P["nth"] = int64(r.Intn(8))
	case "same-file":
		c.S["v"] = pick(r, "in.pbf", "in.pbf", "./in.pbf", "/w/in.pbf", "../w/in.pbf", "link")
		c.S["of"] = "in.pbf"
		if (cmd == "relindex" || cmd == "rewritenodes") && r.Bool(0.5) {
			c.S["v"] = strings.Replace(c.S["v"], "in.pbf", "idx", 1)
			c.S["of"] = "idx"
		}
	case "no-directory":
		c.S["v"] = pick(r, "no/such/out", "", "/w")
	case "temporary":
		// a file that is read has the name of an intermediate file, or is one
		if cmd == "rewritenodes" {
			bigIndex(c, r)
		}
		c.S["of"] = "in.pbf"
		if (cmd == "relindex" || cmd == "rewritenodes") && r.Bool(0.4) {
			c.S["of"] = "idx"
		}
		c.S["v"] = pick(r, "name", "name", "link")
		c.P["nth"] = int64(r.Intn(4))
	case "profile":
		c.S["v"] = pick(r, "--cpu-profile=prof", "--mem-profile=prof", "--cpu-profile=prof --mem-profile=prof2",
			"--mem-profile=prof --mem-profile-rate=0", "--mem-profile=prof --mem-profile-rate=-1", "--mem-profile-rate=1",
			"--max-threads=1", "--max-threads=0", "--max-threads=-3", "--max-threads=100000")
	case "profile-over":
		c.S["v"] = pick(r, "--cpu-profile", "--mem-profile")
		c.S["of"] = "in.pbf"
		switch {
		case strings.HasPrefix(cmd, "dump"):
			c.S["of"] = "idx"
		case (cmd == "relindex" || cmd == "rewritenodes") && r.Bool(0.4):
			c.S["of"] = "idx"
		case writer && r.Bool(0.3):
			c.S["of"] = "out"
		}
	}
}

// swapArg replaces a file name among the arguments.
func swapArg(a []string, from, to string) []string {
	o := append([]string(nil), a...)
	for i := range o {
		if o[i] == from {
			o[i] = to
		}
	}
	return o
}

// setOpt replaces the value of an option, or adds it.
func setOpt(a []string, k, v string) []string {
	o := []string{}
	for i := 0; i < len(a); i++ {
		if a[i] == k {
			i++
		} else {
			o = append(o, a[i])
		}
	}
	if strings.HasPrefix(v, "-") {
		return append(o, k+"="+v)
	}
	return append(o, k, v)
}

func optionsRun(e *Env) *Violation {
	c := e.c
	cmd, v := c.S["cmd"], c.S["v"]
	var args, ins, extra []string
	switch cmd {
	case "dumpnodeindex":
		b, _ := nodeIndexFor(c)
		e.fs.Put("idx", b)
		args, ins = []string{"-i", "idx", "-s"}, []string{"idx"}
	case "dumpwayindex":
		b, _ := wayIndexFor(c)
		e.fs.Put("idx", b)
		args, ins = []string{"-i", "idx", "-s"}, []string{"idx"}
	case "blockcount", "entitycount", "entityfind":
		args, ins = c.readerArgs(), []string{"in.pbf"}
	default:
		ins = e.setup()
		args = c.writerArgs(c.P["w"], c.S["refresh"])
	}
	writer := c.S["refresh"] != ""
	good := args
	refuse := v == "x"
	switch c.S["what"] {
	case "workers":
		args = setOpt(args, "-w", v)
		refuse = refuse || v[0] == '-' || v == "0"
	case "passes":
		args = setOpt(args, "-p", v)
		refuse = refuse || v[0] == '-' || v == "0"
	case "memory":
		args = setOpt(args, "-m", v)
		refuse = v[0] == '-'
	case "timing":
		args = setOpt(args, "-t", v)
	case "alignment":
		args = setOpt(args, "-a", v)
	case "refresh":
		args = setOpt(args, "-r", v)
		refuse = refuse || v[0] == '-'
	case "part":
		i, n, _ := strings.Cut(v, "/")
		args = setOpt(setOpt(args, "--sub-index-index", i), "--sub-index-count", n)
		var a, b int64
		fmt.Sscan(i, &a)
		fmt.Sscan(n, &b)
		refuse = a < 0 || b < 1 || a >= b
	case "half-part":
		args = setOpt(args, v, "1")
		refuse = true
	case "stray":
		if v == "--" {
			args = append(append([]string(nil), args...), v, "x")
		} else {
			args = append(append([]string(nil), args...), v)
		}
		refuse = true
	case "help":
		if c.P["alone"] == 1 {
			args = []string{v}
		} else {
			// before any option
			var at []int
			for i, a := range args {
				if a[0] == '-' {
					at = append(at, i)
				}
			}
			at = append(at, len(args))
			k := at[int(c.P["nth"])%len(at)]
			args = append(append(append([]string(nil), args[:k]...), v), args[k:]...)
		}
	case "without", "no-input":
		// the options that name a file, or the entities
		var at []int
		for i, a := range args {
			if a == "-i" || a == "-x" || c.S["what"] == "without" && (a == "-o" || a == "-e" && len(c.L) <= 1) {
				at = append(at, i)
			}
		}
		k := at[int(c.P["nth"])%len(at)]
		rest := append([]string(nil), args[k+2:]...)
		if c.S["what"] == "no-input" {
			rest = append([]string{args[k], v}, rest...)
		}
		args = append(append([]string(nil), args[:k]...), rest...)
		refuse = true
	case "same-file":
		if v == "link" {
			e.fs.Link(c.S["of"], v)
			ins = append(ins, v)
		}
		args = setOpt(args, "-o", v)
		refuse = true
	case "no-directory":
		args = setOpt(args, "-o", v)
		refuse = true
	case "profile":
		args = append(append([]string(nil), args...), strings.Fields(v)...)
		refuse = v == "--mem-profile-rate=1"
		extra = []string{"prof", "prof2"}
	case "profile-over":
		args = append(append([]string(nil), args...), v+"="+c.S["of"])
		refuse = true
	}
	// what ordinary options give
	keep := e.fs
	e.fs = keep.Clone()
	d := e.run(RO{}, cmd, good...)
	e.fs = keep
	if !d.OK() {
		return nil
	}
	if c.S["what"] == "temporary" {
		var tmp []string
		for _, o := range d.Ops {
			if b := path.Base(o.Path); o.Op == "create" && b != "out" {
				tmp = append(tmp, b)
			}
		}
		if len(tmp) == 0 {
			return nil
		}
		t, of := tmp[int(c.P["nth"])%len(tmp)], c.S["of"]
		e.fs.Link(of, t)
		if v == "name" {
			e.fs.Del(of)
			args = swapArg(args, of, t)
			ins = swapArg(ins, of, t)
		} else {
			ins = append(ins, t)
		}
	}
	before := e.snapshot(ins)
	disk := e.fs.Clone()
	res := e.run(RO{Tsc: int(c.P["tsc"])}, cmd, args...)
	what := cmd + " " + strings.Join(args, " ")
	if res.Hang != "" {
		return notOK(what, res)
	}
	if vi := e.inputsKept(before); vi != nil {
		return viol("input-changed", "%s: %s (%s)", what, vi.Msg, res.Status())
	}
	if refuse && c.S["what"] == "refresh" && res.LiveScreens > 0 {
		return viol("terminal", "%s: the program leaves the terminal as it is (%s)", what, res.Status())
	}
	if res.OK() && refuse {
		return viol("nonsense-accepted", "%s: the program reports success", what)
	}
	if k := c.S["what"]; k == "help" || k == "without" {
		// nothing has been started
		if vi := e.untouched(disk); vi != nil {
			return viol("disturbed", "%s: %s", what, vi.Msg)
		}
		if was, is := disk.Names(), e.fs.Names(); len(is) != len(was) {
			return viol("disturbed", "%s: the files are %v instead of %v", what, is, was)
		}
		if res.LiveScreens > 0 {
			return viol("terminal", "%s: the program leaves the terminal as it is (%s)", what, res.Status())
		}
	}
	if c.S["what"] == "help" {
		if !res.OK() || !strings.Contains(res.Stdout, "Usage:") {
			return viol("no-help", "%s: no help is printed (%s)", what, res.Status())
		}
		return nil
	}
	if !res.OK() {
		return nil
	}
	if writer {
		if ids, _ := c.Data.wayLocs(); c.S["what"] == "alignment" && len(ids) == 0 {
			return nil // nothing to align
		}
		if vi := e.expect(); vi != nil {
			return viol(vi.Class, "%s: the program reports success, but %s", what, vi.Msg)
		}
		if vi := e.onlyFiles(append(append(ins, extra...), "in.pbf", "out")...); vi != nil {
			return vi
		}
	}
	if c.S["what"] == "profile" && strings.Contains(v, "=prof") {
		if b, ok := e.fs.Get("prof"); !ok || len(b) == 0 {
			return viol("no-profile", "%s: the profile asked for is missing or empty", what)
		}
	}
	if c.isReader() && answer(res.Stdout) != answer(d.Stdout) {
		return viol("wrong-answer", "%s: %q is printed instead of %q", what, answer(res.Stdout), answer(d.Stdout))
	}
	return nil
}

func init() {
	reg("P24", "options", 100, genOptions, optionsRun)
}
