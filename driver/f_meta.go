package main

import (
	"bytes"
	"context"
	"go/format"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/mmcloughlin/addchain/internal/metavars"
)

func mvFile(a V) *metavars.File {
	f := &metavars.File{Package: text(field(a, "pkg"))}
	for _, p := range list(field(a, "props")) {
		f.Properties = append(f.Properties, metavars.Property{Name: text(field(p, "n")), Doc: text(field(p, "d")), Value: text(field(p, "v"))})
	}
	return f
}

func mvProps(f *metavars.File) L {
	l := L{}
	for _, p := range f.Properties {
		l = append(l, R{"n": Bytes(p.Name), "d": Bytes(p.Doc), "v": Bytes(p.Value)})
	}
	return l
}

func canonical(b []byte) bool {
	g, err := format.Source(b)
	return err == nil && bytes.Equal(g, b)
}

func init() {
	reg("mv.hist", func(a V) V {
		f := mvFile(a)
		again := func(f *metavars.File) (*metavars.File, error) {
			var buf bytes.Buffer
			if err := metavars.Write(&buf, f); err != nil {
				return nil, err
			}
			return metavars.Read(&buf)
		}
		// the file as built, or as read back
		if boolean(field(a, "via")) {
			g, err := again(f)
			if err != nil {
				return failed(err)
			}
			f = g
		}
		out := L{}
		for _, op := range list(field(a, "ops")) {
			name, value := text(field(op, "n")), text(field(op, "v"))
			r := R{"v": Bytes("")}
			switch str(field(op, "k")) {
			case "get":
				v, ok := f.Get(name)
				r["ok"], r["v"] = ok, Bytes(v)
			case "add":
				r["ok"] = f.Add(metavars.Property{Name: name, Value: value, Doc: text(field(op, "d"))}) == nil
			case "set":
				r["ok"] = f.Set(name, value) == nil
			}
			r["props"] = mvProps(f)
			r["pkg"] = Bytes(f.Package)
			out = append(out, r)
		}
		// and what is written in the end
		g, err := again(f)
		if err != nil {
			return failed(err)
		}
		return R{"steps": out, "props": mvProps(g), "pkg": Bytes(g.Package)}
	})

	reg("mv.round", func(a V) V {
		f := mvFile(a)
		var buf bytes.Buffer
		if err := metavars.Write(&buf, f); err != nil {
			return failed(err)
		}
		r := R{"ok": true, "canonical": canonical(buf.Bytes())}
		g, err := metavars.Read(bytes.NewReader(buf.Bytes()))
		if err != nil {
			return failed(err)
		}
		r["pkg"], r["props"] = Bytes(g.Package), mvProps(g)
		// the source arriving in pieces; a different outcome is the one to judge
		p, err := metavars.Read(&pieces{src: buf.Bytes(), sizes: []int{1 + buf.Len()%7, 0, 3}, end: "with"})
		if err != nil {
			return failed(err)
		}
		if p.Package != g.Package || !bytes.Equal(enc(nil, mvProps(p)), enc(nil, mvProps(g))) {
			r["pkg"], r["props"] = Bytes(p.Package), mvProps(p)
		}
		// through a file that already exists and is longer
		path := filepath.Join(os.Getenv("VERIF_TMP"), "mv"+itoa(os.Getpid())+".go")
		if err := ioutil.WriteFile(path, append([]byte("package old\n\nvar zzz = \"old\"\n"), bytes.Repeat([]byte("// filler\n"), 40+buf.Len()/8)...), 0644); err != nil {
			panic(err)
		}
		if err := metavars.WriteFile(path, f); err != nil {
			return failed(err)
		}
		b, err := ioutil.ReadFile(path)
		if err != nil {
			return failed(err)
		}
		r["samefile"] = canonical(b)
		h, err := metavars.ReadFile(path)
		if err != nil {
			return failed(err)
		}
		r["fpkg"], r["fprops"] = Bytes(h.Package), mvProps(h)
		was, now := enc(nil, mvProps(mvFile(a))), enc(nil, mvProps(f))
		r["unchanged"] = bytes.Equal(was, now)
		return r
	})

	// The release tool on a file: bump VERSION with a date.
	reg("mv.bump", func(a V) V {
		dir, err := ioutil.TempDir(os.Getenv("VERIF_TMP"), "bump")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "vars.go")
		if err := metavars.WriteFile(path, mvFile(a)); err != nil {
			return failed(err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Getenv("VERIF_RELEASE"), "bump", "-vars", path, "-date", text(field(a, "date")), text(field(a, "version")))
		cmd.Dir = dir
		status := 0
		if out, err := cmd.CombinedOutput(); err != nil {
			ee, ok := err.(*exec.ExitError)
			if !ok {
				return R{"status": -100, "err": ascii(string(out)), "readok": false}
			}
			status = ee.ExitCode()
		}
		b, err := ioutil.ReadFile(path)
		if err != nil {
			return R{"status": status, "readok": false}
		}
		g, err := metavars.Read(bytes.NewReader(b))
		if err != nil {
			return R{"status": status, "readok": false}
		}
		return R{"status": status, "readok": true, "pkg": Bytes(g.Package), "props": mvProps(g), "canonical": canonical(b)}
	})
}
