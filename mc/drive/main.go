// Command drive checks properties of netscrape: it instruments the packages
// in /repo, links them with the controlled scheduler and the harnesses in
// /verif/mc/rt, and runs the exploration for one property.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

const (
	module   = "github.com/milosgajdos/netscrape"
	repo     = "/repo"
	gonumMod = "gonum.org/v1/gonum"
	gonum    = gonumMod + "/graph"
	mainPkg  = "./verifmc/mcmain"
)

var (
	tier    = flag.String("tier", "quick", "quick or thorough")
	replay  = flag.String("replay", "", "replay this artefact")
	keep    = flag.Bool("keep", false, "keep the scratch directory")
	dump    = flag.String("dump", "", "write the instrumented files to this directory")
	noRace  = flag.Bool("norace", false, "skip the data race pass")
	unitRe  = flag.String("unit", "", "only units whose name contains this")
	prime   = flag.Bool("prime", false, "only build")
	verbose = flag.Bool("v", false, "verbose")
)

func env() []string {
	var out []string
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOWORK": true, "GOPATH": true,
		"GOMODCACHE": true, "GOCACHE": true, "PATH": true, "HOME": true, "GOMAXPROCS": true, "GODEBUG": true, "GORACE": true, "GOEXPERIMENT": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		out = append(out, e)
	}
	return append(out, "HOME=/root", "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=/root/.cache/go-build", "GOFLAGS=-mod=mod -tags=safe", "CGO_ENABLED=1")
}

func logf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
}

func goCmd(scratch string, args ...string) (string, string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = env()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	return out.String(), errb.String(), err
}

type overlay struct {
	Replace map[string]string
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o644)
}

// addTree maps the files of dir into package directory pkg of the module.
func addTree(ov *overlay, dir, pkg string) error {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !e.IsDir() {
			ov.Replace[filepath.Join(repo, pkg, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	return nil
}

type builder struct {
	scratch string
	verif   string
	notes   []string
}

func (b *builder) load() (map[string]*pkgInfo, error) {
	out, errs, err := goCmd(b.scratch, "list", "-modfile="+b.scratch+"/go.mod", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,ImportMap", "./...")
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errs)
	}
	pkgs := map[string]*pkgInfo{}
	d := json.NewDecoder(strings.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs[p.ImportPath] = p
	}
	return pkgs, nil
}

func (b *builder) prepare() error {
	if err := copyFile(repo+"/go.mod", b.scratch+"/go.mod"); err != nil {
		return err
	}
	if err := copyFile(repo+"/go.sum", b.scratch+"/go.sum"); err != nil {
		return err
	}
	pkgs, err := b.load()
	if err != nil {
		return err
	}
	ov := &overlay{Replace: map[string]string{}}
	rt := b.verif + "/mc/rt"
	for _, p := range []string{"vs", "vatomic", "mcmain"} {
		if err := addTree(ov, rt+"/"+p, "verifmc/"+p); err != nil {
			return err
		}
	}
	in := &instrumenter{pkgs: pkgs, in: map[string]map[int64]bool{}, strs: map[string]bool{}, ints: map[int64]bool{}, floats: map[float64]bool{}, full: func(path string) bool { return path == module || strings.HasPrefix(path, module+"/") }}
	n := 0
	gdir := "" // copy of the gonum packages in use, with deterministic map iteration
	for path, p := range pkgs {
		if path != gonumMod && !strings.HasPrefix(path, gonumMod+"/") {
			continue
		}
		if gdir == "" {
			root := strings.TrimSuffix(p.Dir, strings.TrimPrefix(path, gonumMod))
			gdir = b.scratch + "/gonum"
			if err := os.MkdirAll(gdir, 0o755); err != nil {
				return err
			}
			if err := copyFile(root+"/go.mod", gdir+"/go.mod"); err != nil {
				return err
			}
		}
		dir := gdir + strings.TrimPrefix(path, gonumMod)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		es, err := os.ReadDir(p.Dir)
		if err != nil {
			return err
		}
		for _, e := range es {
			if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			if x := filepath.Ext(e.Name()); x != ".go" && x != ".s" && x != ".h" {
				continue
			}
			if err := copyFile(p.Dir+"/"+e.Name(), dir+"/"+e.Name()); err != nil {
				return err
			}
		}
	}
	if gdir != "" {
		f, err := os.OpenFile(b.scratch+"/go.mod", os.O_APPEND|os.O_WRONLY, 0)
		if err != nil {
			return err
		}
		fmt.Fprintf(f, "\nreplace %s => %s\n", gonumMod, gdir)
		if err := f.Close(); err != nil {
			return err
		}
	}
	for path, p := range pkgs {
		mine := in.full(path)
		if !mine && !(path == gonum || strings.HasPrefix(path, gonum+"/")) {
			continue
		}
		if path == gonum+"/iterator" {
			if err := copyFile(filepath.Join(rt, "gonum", "nodes_map_safe.go"), gdir+strings.TrimPrefix(path, gonumMod)+"/nodes_map_safe.go"); err != nil {
				return err
			}
			continue
		}
		if strings.Contains(path, "/formats/") || p.Export == "" {
			continue
		}
		out, err := in.pkg(p)
		if err != nil {
			b.notes = append(b.notes, "not instrumented: "+path+": "+err.Error())
			logf("drive: not instrumented: %s: %v", path, err)
			continue
		}
		for name, text := range out {
			n++
			f := fmt.Sprintf("%s/src/%d_%s", b.scratch, n, filepath.Base(name))
			if *dump != "" {
				_ = os.MkdirAll(*dump, 0o755)
				_ = os.WriteFile(*dump+"/"+strings.ReplaceAll(strings.TrimPrefix(name, "/"), "/", "_"), text, 0o644)
			}
			if !mine {
				f = gdir + strings.TrimPrefix(path, gonumMod) + "/" + filepath.Base(name)
			} else {
				ov.Replace[name] = f
			}
			if err := os.WriteFile(f, text, 0o644); err != nil {
				return err
			}
		}
	}
	if err := os.WriteFile(b.scratch+"/dict.json", in.dict(), 0o644); err != nil {
		return err
	}
	j, _ := json.MarshalIndent(ov, "", " ")
	return os.WriteFile(b.scratch+"/overlay.json", j, 0o644)
}

func (b *builder) build(race bool) (string, error) {
	bin := b.scratch + "/mc"
	args := []string{"build", "-modfile=" + b.scratch + "/go.mod", "-overlay=" + b.scratch + "/overlay.json", "-trimpath"}
	if race {
		bin += "race"
		args = append(args, "-race", "-gcflags="+vsPath+"=-race=false -l")
	}
	args = append(args, "-o", bin, mainPkg)
	_, errs, err := goCmd(b.scratch, args...)
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, errs)
	}
	return bin, nil
}

func main() {
	flag.Parse()
	if flag.NArg() != 1 {
		logf("usage: drive [flags] ID")
		os.Exit(2)
	}
	os.Exit(run(flag.Arg(0)))
}

func run(id string) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	scratch, err := os.MkdirTemp("", "nsmc-")
	if err != nil {
		logf("drive: %v", err)
		return 2
	}
	if !*keep {
		defer os.RemoveAll(scratch)
		c := make(chan os.Signal, 1)
		signal.Notify(c, os.Interrupt, syscall.SIGTERM)
		go func() {
			<-c
			os.RemoveAll(scratch)
			os.Exit(2)
		}()
	} else {
		logf("scratch: %s", scratch)
	}
	_ = os.Mkdir(scratch+"/src", 0o755)
	b := &builder{scratch: scratch, verif: verif}
	if err := b.prepare(); err != nil {
		logf("drive: %v", err)
		return 2
	}
	bin, err := b.build(false)
	if err != nil {
		logf("drive: %v", err)
		return 2
	}
	if *prime {
		if _, err := b.build(true); err != nil {
			logf("drive: %v", err)
			return 2
		}
		return 0
	}
	if *verbose {
		logf("drive: built after %v", time.Since(start))
	}
	res, err := runBin(bin, scratch, verif, id, "main", start)
	if err != nil {
		logf("drive: %v", err)
		return 2
	}
	if res.RaceUnits > 0 && len(res.Violations) == 0 && !*noRace && *replay == "" {
		rbin, err := b.build(true)
		if err != nil {
			logf("drive: %v", err)
			return 2
		}
		if *verbose {
			logf("drive: race build after %v", time.Since(start))
		}
		rr, err := runBin(rbin, scratch, verif, id, "race", start)
		if err != nil {
			logf("drive: %v", err)
			return 2
		}
		res.Race = rr
		res.Violations = append(res.Violations, rr.Violations...)
	}
	res.Notes = append(res.Notes, b.notes...)
	return report(verif, id, res, start)
}

func runBin(bin, scratch, verif, id, mode string, start time.Time) (*Result, error) {
	args := []string{"-check", id, "-tier", *tier, "-mode", mode, "-scratch", scratch,
		"-started", fmt.Sprint(int(time.Since(start).Seconds()))}
	if *unitRe != "" {
		args = append(args, "-unit", *unitRe)
	}
	if *verbose {
		args = append(args, "-v")
	}
	if *replay != "" {
		p, err := filepath.Abs(*replay)
		if err != nil {
			return nil, err
		}
		args = append(args, "-replay", p)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = scratch
	cmd.Env = append(env(), "VERIF_DIR="+verif)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(bin), err)
	}
	if *replay != "" {
		os.Stdout.Write(out)
		os.Exit(0)
	}
	r := &Result{}
	if err := json.Unmarshal(out, r); err != nil {
		return nil, fmt.Errorf("bad output: %v: %.300s", err, out)
	}
	return r, nil
}
