package main

import (
	"context"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C19"] = checkC19 }

// snapshot returns what is in a directory tree.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
		case d.IsDir():
			m[rel] = "(dir)"
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "-> " + t
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string, ignore map[string]bool) string {
	names := map[string]bool{}
	for k := range a {
		names[k] = true
	}
	for k := range b {
		names[k] = true
	}
	ks := []string{}
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		if a[k] != b[k] && !ignore[k] {
			s += fmt.Sprintf("%s: %.300q is now %.300q\n", k, a[k], b[k])
		}
	}
	return s
}

func checkC19(h *harness) {
	exe, _ := os.Executable()
	src := filepath.Join(filepath.Dir(exe), "tsh")
	bin := filepath.Join(h.scratch, "bin")
	os.Mkdir(bin, 0755)
	os.Chmod(bin, 0755)
	b, err := os.ReadFile(src)
	if err != nil {
		fatal("%v", err)
	}
	tsh := filepath.Join(bin, "tsh")
	os.WriteFile(tsh, b, 0755)
	os.Chmod(tsh, 0755)
	os.CopyFS(filepath.Join(bin, "std"), os.DirFS(filepath.Join(filepath.Dir(exe), "std")))
	exec.Command("chmod", "-R", "a+rX", bin).Run()

	h.each(runs(h, 3000), func(l *lane, r *rand.Rand, i int) {
		dir, err := os.MkdirTemp(l.dir, "c")
		if err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(dir)
		os.Chmod(l.dir, 0755)
		cred := credential()
		give := func(p string) {
			if cred.Credential != nil {
				os.Lchown(p, int(cred.Credential.Uid), int(cred.Credential.Gid))
			}
		}
		os.Chmod(dir, 0755)
		give(dir)
		mk := func(n string) {
			os.MkdirAll(filepath.Join(dir, n), 0755)
			os.Chmod(filepath.Join(dir, n), 0755)
			give(filepath.Join(dir, n))
		}
		file := func(n, c string) {
			put(dir, n, c)
			os.Chmod(filepath.Join(dir, n), 0644)
			give(filepath.Join(dir, n))
		}
		mk("src")
		mk("out dir")
		mk("o")
		base := pickS(r, "prog.tsh", "prog.tsh", "a.b.tsh", "my prog.tsh", "prog", "prog.x", "x.sh", "x.bat", "a.sh.tsh", "..tsh.tsh", "-i.tsh", "v1.2/prog"[4:], "a..tsh")
		inDir := pickS(r, "src", "src", "o", ".", "out dir")
		files, text := corpus(r)
		kind := ""
		switch r.Intn(12) {
		case 0:
			text, kind = text+"x := 'a\n", "lexical error"
		case 1:
			text, kind = text+"x := := 1\n", "syntax error"
		case 2:
			text, kind = text+"x := 1 + \"a\"\n", "type error"
		case 3:
			text, kind = "import \"missing.tsh\"\n"+text, "missing import"
			files = nil
		case 4:
			text, kind = text+"print(\"abc\n", "unterminated string"
		}
		if strings.HasPrefix(kind, "missing") && strings.Contains(text[10:], "import") {
			return
		}
		in := filepath.Join(inDir, base)
		file(in, text)
		for n, c := range files {
			file(filepath.Join(inDir, n), c)
		}
		lib := map[string]string{"main.tsh": text}
		for n, c := range files {
			lib[n] = c
		}
		o := l.do(&req{Files: lib, Main: "main.tsh", Targets: []string{"bash", "batch"}})
		if o.Crash+o.Panic != "" {
			h.fail("transpilation crashes", "program", text, "observed", o.Crash+o.Panic)
			return
		}
		want := map[string]string{"bash": o.Out[0], "batch": o.Out[1]}
		bad := o.IsErr[0] || o.IsErr[1]
		if bad != (kind != "") {
			return // A matter of other properties.
		}
		// The options.
		outDir := pickS(r, "o", "o", "out dir", inDir)
		targets := [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"batch", "bash"}, {"bash", "bash"}, {"batch", "batch"}, {"bash", "batch", "bash"}, {"batch", "bash", "batch"}}[r.Intn(8)]
		cwd := pickS(r, ".", ".", "src", "o")
		path := func(p string) string {
			switch r.Intn(4) {
			case 0:
				return filepath.Join(dir, p)
			case 1:
				rel, _ := filepath.Rel(filepath.Join(dir, cwd), filepath.Join(dir, p))
				return rel
			}
			rel, _ := filepath.Rel(filepath.Join(dir, cwd), filepath.Join(dir, p))
			return "./" + rel
		}
		po := path(outDir)
		if r.Intn(4) == 0 {
			po += "/"
		}
		opts := [][]string{{pickS(r, "-i", "--in"), path(in)}, {pickS(r, "-o", "--out"), po}}
		for _, t := range targets {
			opts = append(opts, []string{pickS(r, "-t", "--type"), t})
		}
		stem := strings.TrimSuffix(base, filepath.Ext(base))
		ext := map[string]string{"bash": "sh", "batch": "bat"}
		outOf := func(t string) string { return filepath.Join(outDir, stem+"."+ext[t]) }
		failing := map[string]bool{} // targets which can't be written
		allFail := kind != ""
		optErr := false
		switch r.Intn(26) {
		case 0:
			opts = opts[1:]
			optErr, kind = true, kind+" no input"
		case 1:
			opts = append(opts[:1:1], opts[2:]...)
			optErr, kind = true, kind+" no output"
		case 2:
			opts = opts[:2]
			optErr, kind = true, kind+" no type"
		case 3:
			opts = append(opts, []string{"-t", pickS(r, "sh", "Bash", "", "bat", "bash ", "zsh")})
			optErr, kind = true, kind+" unknown type"
		case 4:
			opts = append(opts, []string{pickS(r, "-x", "--input", "i", "", "--types", "-T", "--"), pickS(r, "bash", "x", "")})
			optErr, kind = true, kind+" unknown option"
		case 5:
			opts = append(opts, []string{pickS(r, "-t", "-i", "-o", "x")})
			optErr, kind = true, kind+" option without a value"
		case 6:
			opts[0][1] = pickS(r, "missing.tsh", "", path("src"), path(in)+"x")
			optErr, kind = true, kind+" bad input"
		case 7:
			opts[1][1] = pickS(r, "missing", "", path(in), path("src")+"x")
			optErr, kind = true, kind+" bad output"
		case 8:
			if cred.Credential != nil {
				os.Chmod(filepath.Join(dir, in), 0)
				allFail, kind = true, kind+" unreadable input"
			}
		case 9:
			if cred.Credential != nil && outDir != inDir {
				os.Chmod(filepath.Join(dir, outDir), 0555)
				if r.Intn(2) == 0 {
					os.Chown(filepath.Join(dir, outDir), 0, 0)
				}
				allFail, kind = true, kind+" unwritable output directory"
			}
		}
		limit := false
		if kind == "" && r.Intn(12) == 0 {
			limit = true // Writing fails after the first KiB.
			kind = "file size limit"
			for t := range want {
				if len(want[t]) > 1024 {
					failing[t] = true
				}
			}
		}
		preserved := map[string]bool{}
		for _, t := range []string{"bash", "batch"} {
			p := outOf(t)
			if p == filepath.Clean(in) {
				failing[t] = true
				kind += " output is the input"
				continue
			}
			if r.Intn(3) != 0 {
				continue
			}
			if _, err := os.Lstat(filepath.Join(dir, p)); err == nil {
				continue
			}
			switch r.Intn(8) {
			case 0:
				mk(p)
				file(filepath.Join(p, "x"), "x")
				failing[t] = true
				kind += " output is a directory"
			case 1:
				os.Link(filepath.Join(dir, in), filepath.Join(dir, p))
				preserved[t] = true
				kind += " output is a hard link to the input"
			case 2:
				os.Symlink(filepath.Join(dir, in), filepath.Join(dir, p))
				preserved[t] = true
				kind += " output is a symbolic link to the input"
			case 3:
				file(p, want[t]+strings.Repeat("old content\n", 1+r.Intn(300)))
			case 4:
				file(p, "")
			default:
				file(p, pickS(r, "old", "old\r\n", want[t]))
			}
		}
		if !optErr && r.Intn(2) == 0 || optErr && r.Intn(2) == 0 && len(opts[len(opts)-1]) == 2 {
			r.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			targets = nil
			for _, x := range opts {
				if x[0] == "-t" || x[0] == "--type" {
					targets = append(targets, x[1])
				}
			}
		}
		args := []string{}
		for _, x := range opts {
			args = append(args, x...)
		}
		before := snapshot(dir)
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, tsh, args...)
		if limit {
			c = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", "ulimit -f 1; exec \"$0\" \"$@\"", tsh}, args...)...)
		}
		c.Dir = filepath.Join(dir, cwd)
		c.Env = []string{}
		se := &limited{max: 1 << 14}
		c.Stderr, c.Stdout = se, se
		c.SysProcAttr = cred
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		runErr := c.Run()
		code := 0
		if x, ok := runErr.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else if runErr != nil {
			code = -1
		}
		os.Chmod(filepath.Join(dir, in), 0644)
		if strings.Contains(kind, "unreadable") {
			before[filepath.Clean(in)] = "file " + text
		}
		after := snapshot(dir)
		problem := ""
		report := func() {
			h.fail("tsh doesn't write exactly the output or nothing", "options", fmt.Sprintf("%q in %s", args, cwd), "case", kind, "program", text, "observed", fmt.Sprintf("exit status %d\n%s\n%s", code, problem, se.b.String()))
		}
		if after[filepath.Clean(in)] != "file "+text {
			problem = "the input has been changed"
			report()
			return
		}
		anyFail := optErr || allFail
		may := map[string]bool{}
		for _, t := range targets {
			if failing[t] {
				anyFail = true
			}
			if preserved[t] {
				may[t] = true
			}
		}
		ignore := map[string]bool{}
		expect := map[string]string{}
		for k, v := range before {
			expect[k] = v
		}
		switch {
		case optErr || allFail:
			if code == 0 {
				problem = "the exit status is 0"
			}
		case anyFail || len(may) > 0:
			if anyFail && code == 0 {
				problem = "the exit status is 0"
			}
			// The targets which can be written are written or not.
			for _, t := range targets {
				if failing[t] {
					continue
				}
				p := outOf(t)
				if after[p] == "file "+want[t] {
					ignore[p] = true
				} else if code == 0 {
					problem = "wrong output " + p
				}
			}
		default:
			if code != 0 {
				problem = "the exit status isn't 0"
			}
			for _, t := range targets {
				expect[outOf(t)] = "file " + want[t]
			}
		}
		problem += snapDiff(expect, after, ignore)
		if problem != "" {
			report()
			return
		}
		k := strings.TrimSpace(kind)
		if k == "" {
			k = "success"
		} else if strings.Contains(k, "  ") || len(k) > 40 {
			k = "several errors"
		}
		h.count("C19 runs: "+k, 1)
	})
}
