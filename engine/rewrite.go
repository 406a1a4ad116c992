package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// rewriteOS redirects the os import of a package to the in-memory disk verifsym/vos, both for the
// symbolic execution and for the native replay. Nothing but the import line changes.
func rewriteOS(cfg *CheckCfg, d, tmp string, sym map[string][]byte, native map[string]string) error {
	dir := filepath.Join(moduleDir(cfg.Module), d)
	vos := modulePath(cfg.Module) + "/verifsym/vos"
	b, err := os.ReadFile(filepath.Join(root, "verifsym/vos/vos.go"))
	if err != nil {
		return err
	}
	put := func(dst string, b []byte) error {
		f := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "__"))
		sym[dst] = b
		native[dst] = f
		return os.WriteFile(f, b, 0o644)
	}
	b = []byte(strings.ReplaceAll(string(b), "VERIFMODULE", modulePath(cfg.Module)))
	if err := put(filepath.Join(moduleDir(cfg.Module), "verifsym", "vos", "vos.go"), b); err != nil {
		return err
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for _, im := range f.Imports {
			if im.Path.Value != `"os"` {
				continue
			}
			from, to := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
			name := ""
			if im.Name == nil {
				name = "os "
			}
			out := string(src[:from]) + fmt.Sprintf("%s%q", name, vos) + string(src[to:])
			if err := put(p, []byte(out)); err != nil {
				return err
			}
		}
	}
	return nil
}

// rewriteJS makes packages out of single files of a web assembly package ("<dir>/<name>_wasm.go"
// becomes <dir>/verif_<name>), whose import of syscall/js is redirected to verifsym/js. Nothing but
// the import line and build constraints changes.
func rewriteJS(cfg *CheckCfg, d, tmp string, sym map[string][]byte, native map[string]string) error {
	dir := filepath.Join(moduleDir(cfg.Module), d)
	js := modulePath(cfg.Module) + "/verifsym/js"
	put := func(dst string, b []byte) error {
		f := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "__"))
		sym[dst] = b
		native[dst] = f
		return os.WriteFile(f, b, 0o644)
	}
	b, err := os.ReadFile(filepath.Join(root, "verifsym/js/js.go"))
	if err != nil {
		return err
	}
	if err := put(filepath.Join(moduleDir(cfg.Module), "verifsym", "js", "js.go"), b); err != nil {
		return err
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*_wasm.go"))
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		out := string(src)
		for _, im := range f.Imports {
			if im.Path.Value == `"syscall/js"` {
				from, to := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
				out = out[:from] + fmt.Sprintf("%q", js) + out[to:]
			}
		}
		lines := strings.Split(out, "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "//go:build ") || strings.HasPrefix(l, "// +build ") {
				lines[i] = "//"
			}
		}
		name := strings.TrimSuffix(filepath.Base(p), "_wasm.go")
		if err := put(filepath.Join(dir, "verif_"+name, name+".go"), []byte(strings.Join(lines, "\n"))); err != nil {
			return err
		}
	}
	return nil
}
