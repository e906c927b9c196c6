package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C17"] = checkC17; checks["C18"] = checkC18 }

// pathPool are spellings of paths, the directories d and "e f" exist.
var pathPool = []string{"f", "./f", "g", "a b", " x", "x ", "d/f", "d/../f", "e f/g h", "-n", "-e", "--", "*", "?", "[a]", "$HOME", "$(touch canary)", "`touch canary`", "a\"b", "a'b", "a\\b", "#", "~", "!", ";", "&", "|", "<", ">", "%s", "{a,b}", "a\tb", "d//f", ".h", "e f/./g h"}

func checkC17(h *harness) {
	h.each(runs(h, 5000), func(l *lane, r *rand.Rand, i int) {
		ps := []string{}
		for n := 1 + r.Intn(4); n > 0; n-- {
			ps = append(ps, pathPool[r.Intn(len(pathPool))])
		}
		files := map[string]string{} // cleaned path -> content
		src, want := strings.Builder{}, strings.Builder{}
		k := 0
		expr := func(s string) string {
			k++
			switch r.Intn(6) {
			case 0:
				fmt.Fprintf(&src, "v%dv := %s\n", k, quoteStr(s, false))
				return fmt.Sprintf("v%dv", k)
			case 1:
				c := r.Intn(len(s) + 1)
				return quoteStr(s[:c], false) + " + " + quoteStr(s[c:], false)
			case 2:
				fmt.Fprintf(&src, "v%dv := []string{\"x\", %s}\n", k, quoteStr(s, false))
				return fmt.Sprintf("v%dv[1]", k)
			}
			return quoteStr(s, r.Intn(3) == 0)
		}
		b1 := func(x bool) string { return map[bool]string{true: "1", false: "0"}[x] }
		inFn := r.Intn(3) == 0
		if inFn {
			src.WriteString("func run() {\n")
		}
		for n := 3 + r.Intn(8); n > 0; n-- {
			p := ps[r.Intn(len(ps))]
			c := path.Clean(p)
			switch q := r.Intn(9); {
			case q < 2:
				s := nastyStr(r)
				e := expr(p)
				fmt.Fprintf(&src, "write(%s, %s%s)\n", e, expr(s), pickS(r, "", "", ", false", ", 1 == 2"))
				files[c] = s + "\n"
			case q < 4:
				s := nastyStr(r)
				e := expr(p)
				fmt.Fprintf(&src, "write(%s, %s, %s)\n", e, expr(s), pickS(r, "true", "1 == 1", "!false"))
				files[c] += s + "\n"
			case q < 7:
				if f, ok := files[c]; ok {
					fmt.Fprintf(&src, "print(read(%s))\n", expr(p))
					want.WriteString(f)
					if r.Intn(3) == 0 {
						// Copy the content to another file.
						p2 := ps[r.Intn(len(ps))]
						fmt.Fprintf(&src, "write(%s, read(%s))\n", expr(p2), expr(p))
						files[path.Clean(p2)] = f
					}
				}
			case q < 8:
				fmt.Fprintf(&src, "print(exists(%s))\n", expr(p))
				_, ok := files[c]
				want.WriteString(b1(ok) + "\n")
			default:
				d := pickS(r, "d", "e f", "none", "d/none", "keep", "./d", ".", "empty", "d/empty file", "noperm", "none/x")
				fmt.Fprintf(&src, "if exists(%s) {\n\tprint(\"yes\")\n} else {\n\tprint(\"no\")\n}\n", expr(d))
				want.WriteString(map[bool]string{true: "yes\n", false: "no\n"}[!strings.Contains(d, "none")])
			}
		}
		if inFn {
			src.WriteString("}\nrun()\n")
		}
		script, err := l.tr(src.String())
		if err != "" {
			h.fail("a well-typed program is not accepted", "program", src.String(), "observed", err)
			return
		}
		got, diff := run{}, ""
		got = l.sh(script, "", func(d string) {
			for _, x := range []string{"d", "e f"} {
				os.Mkdir(filepath.Join(d, x), 0777)
				os.Chmod(filepath.Join(d, x), 0777)
			}
			put(d, "keep", "kept")
			put(d, "empty", "")
			put(d, "d/empty file", "")
			put(d, "noperm", "x")
			os.Chmod(filepath.Join(d, "noperm"), 0)
		}, func(d string) {
			seen := map[string]string{}
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					rel, _ := filepath.Rel(d, p)
					seen[rel] = string(get(d, rel))
				}
				return nil
			})
			if seen["keep"] != "kept" {
				diff = "another file has been changed"
			}
			for _, n := range []string{"keep", "empty", "d/empty file", "noperm"} {
				delete(seen, n)
			}
			if fmt.Sprint(seen) != fmt.Sprint(files) {
				diff += fmt.Sprintf("files %q instead of %q", seen, files)
			}
		})
		if got.Out != want.String() || got.Err != "" || got.Code != 0 || diff != "" {
			h.fail("write, read and exists don't behave as a line store", "program", src.String(), "expected", fmt.Sprintf("%q", want.String()), "observed", got.String()+"\n"+diff, "script", script)
			return
		}
		h.count("C17 histories", 1)
	})
}

// probeRun is what the probe program does.
func probeRun(args []string, in string) (string, int) {
	o, code := "", 0
	for i, a := range args {
		o += fmt.Sprintf("arg%d=%q\n", i, a)
		if s, ok := strings.CutPrefix(a, "exit:"); ok {
			fmt.Sscan(s, &code)
		}
	}
	for _, a := range args {
		if a == "stdin" {
			o += fmt.Sprintf("in=%q\n", in)
		}
		if s, ok := strings.CutPrefix(a, "out:"); ok {
			o += s
		}
	}
	return o, code
}

// probeErr is what it writes to standard error.
func probeErr(args []string) string {
	o := ""
	for _, a := range args {
		if s, ok := strings.CutPrefix(a, "err:"); ok {
			o += s
		}
	}
	return o
}

func checkC18(h *harness) {
	exe, _ := os.Executable()
	b, err := os.ReadFile(exe)
	if err != nil {
		fatal("%v", err)
	}
	bin := filepath.Join(h.scratch, "bin")
	os.Mkdir(bin, 0755)
	os.Chmod(bin, 0755)
	os.WriteFile(filepath.Join(bin, "rac"), b, 0755)
	os.Chmod(filepath.Join(bin, "rac"), 0755)
	for _, n := range []string{"probe", "my probe", "pr$obe", "pr'o\"be", "-probe", "pr*be"} {
		os.WriteFile(filepath.Join(bin, n), []byte("#!/bin/sh\nexec '"+bin+"/rac' probe \"$@\"\n"), 0755)
		os.Chmod(filepath.Join(bin, n), 0755)
	}
	h.each(runs(h, 2600), func(l *lane, r *rand.Rand, i int) {
		src, want := strings.Builder{}, strings.Builder{}
		errs := []string{}
		k := 0
		expr := func(s string) string {
			k++
			switch r.Intn(6) {
			case 0:
				fmt.Fprintf(&src, "v%dv := %s\n", k, quoteStr(s, false))
				return fmt.Sprintf("v%dv", k)
			case 1:
				c := r.Intn(len(s) + 1)
				return quoteStr(s[:c], false) + " + " + quoteStr(s[c:], false)
			case 2:
				fmt.Fprintf(&src, "v%dv := []string{\"x\", %s}\n", k, quoteStr(s, false))
				return fmt.Sprintf("v%dv[1]", k)
			}
			return quoteStr(s, r.Intn(3) == 0)
		}
		inFn := r.Intn(3) == 0
		if inFn {
			src.WriteString("func run() {\n")
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			stages := 1 + r.Intn(3)
			out, code := "", 0
			calls := []string{}
			all := [][]string{}
			for s := 0; s < stages; s++ {
				args := []string{}
				for m := r.Intn(6); m > 0; m-- {
					a := nastyStr(r)
					if strings.HasPrefix(a, "exit:") || strings.HasPrefix(a, "out:") || strings.HasPrefix(a, "err:") {
						a = "x"
					}
					if r.Intn(6) == 0 {
						a = ""
					}
					args = append(args, a)
				}
				if s > 0 {
					args = append(args, "stdin")
				}
				if r.Intn(2) == 0 {
					args = append(args, fmt.Sprintf("exit:%d", r.Intn(256)))
				}
				if r.Intn(3) == 0 {
					args = append(args, "out:"+pickS(r, "x", "x\n", "x\n\n", "\n", "", "a  b", " ", "*", "\\n", "$HOME"))
				}
				if r.Intn(5) == 0 {
					args = append(args, "err:"+pickS(r, "e", "oops\n"))
				}
				r.Shuffle(len(args), func(x, y int) { args[x], args[y] = args[y], args[x] })
				all = append(all, args)
				out, code = probeRun(args, out)
				errs = append(errs, strings.Split(probeErr(args), "")...)
				as := []string{}
				for _, a := range args {
					as = append(as, expr(a))
				}
				name := filepath.Join(bin, pickS(r, "probe", "probe", "my probe", "pr$obe", "pr'o\"be", "-probe", "pr*be"))
				calls = append(calls, "@"+quoteStr(name, r.Intn(2) == 0)+"("+strings.Join(as, ", ")+")")
			}
			chain := strings.Join(calls, " | ")
			if r.Intn(4) == 0 {
				src.WriteString(chain + "\n")
				want.WriteString(out)
			} else {
				k++
				if r.Intn(2) == 0 {
					fmt.Fprintf(&src, "o%dz, e%dz, c%dz := %s\n", k, k, k, chain)
				} else {
					fmt.Fprintf(&src, "var o%dz string\nvar e%dz string\nvar c%dz int\no%dz, e%dz, c%dz = %s\n", k, k, k, k, k, k, chain)
				}
				fmt.Fprintf(&src, "print(\"<\" + o%dz + \">\", c%dz)\n", k, k)
				fmt.Fprintf(&want, "<%s> %d\n", strings.TrimSuffix(out, "\n"), code)
			}
		}
		if inFn {
			src.WriteString("}\nrun()\n")
		}
		src.WriteString("print(\"end\")\n")
		want.WriteString("end\n")
		script, err := l.tr(src.String())
		if err != "" {
			h.fail("a well-typed program is not accepted", "program", src.String(), "observed", err)
			return
		}
		canary := false
		got := l.sh(script, "outer\n", func(d string) { put(d, "a.sh", ""); put(d, "b c", "") }, func(d string) { canary = get(d, "canary") != nil })
		// The stages run at the same time, so the order of what they write to standard error isn't determined. It isn't
		// specified either whether the assignment of a call chain leaves it there.
		sort.Strings(errs)
		gotErrs := strings.Split(got.Err, "")
		sort.Strings(gotErrs)
		if got.Out != want.String() || got.Err != "" && strings.Join(gotErrs, "") != strings.Join(errs, "") || got.Code != 0 || canary {
			h.fail("command calls don't get their arguments or return their results exactly", "program", src.String(), "expected", fmt.Sprintf("%q", want.String()), "observed", got.String(), "script", script)
			return
		}
		h.count("C18 chains", 1)
	})
}
