package main

import (
	"bytes"
	"context"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// cli runs the addchain command in a scratch directory.
//
//	args  list of argument texts
//	in    standard input
//	file  optional contents of ./input; dir is removed afterwards
//	files optional list of [name, contents] put into the directory first
//	read  optional name of a file whose contents afterwards are reported
func init() {
	reg("cli", func(a V) V {
		dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "cli")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		if has(a, "file") {
			if err := ioutil.WriteFile(filepath.Join(dir, "input"), bytesOf(field(a, "file")), 0644); err != nil {
				panic(err)
			}
		}
		if has(a, "files") {
			for _, f := range list(field(a, "files")) {
				if err := ioutil.WriteFile(filepath.Join(dir, filepath.Base(text(at(f, 0)))), bytesOf(at(f, 1)), 0644); err != nil {
					panic(err)
				}
			}
		}
		args := []string{}
		for _, x := range list(field(a, "args")) {
			args = append(args, text(x))
		}
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Getenv("VERIF_BIN"), args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "PATH=/nonexistent", "TMPDIR=" + dir}
		cmd.Stdin = bytes.NewReader(bytesOf(field(a, "in")))
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err = cmd.Run()
		status := 0
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && ctx.Err() == nil {
				status = ee.ExitCode()
			} else {
				return R{"status": -100, "crash": true, "out": Bytes(""), "err": Bytes(err.Error()), "file": Bytes("")}
			}
		}
		all := out.String() + errb.String()
		crash := strings.Contains(errb.String(), "goroutine ") || strings.Contains(all, "panic:") || strings.Contains(all, "fatal error:") || strings.Contains(all, "runtime error:")
		r := R{"status": status, "crash": crash, "out": Bytes(out.String()), "err": Bytes(tailOf(errb.String())), "file": Bytes("")}
		if has(a, "file") {
			b, err := ioutil.ReadFile(filepath.Join(dir, "input"))
			if err == nil {
				r["file"] = Bytes(b)
			}
		}
		if has(a, "read") {
			b, err := ioutil.ReadFile(filepath.Join(dir, filepath.Base(text(field(a, "read")))))
			r["exists"], r["read"] = err == nil, Bytes(b)
		}
		return r
	})
}

func tailOf(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "\n...\n" + s[len(s)-1900:]
	}
	return s
}
