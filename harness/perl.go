package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// perlSources lists what the Perl modules are built from.
func perlSources(repo string) ([]string, error) {
	cmd := exec.Command("git", "-c", "safe.directory=*", "-C", repo, "ls-files", "-co", "--exclude-standard", "-z",
		"Perl/Encoder", "Perl/Decoder", "Perl/shared", "Perl/this_is_the_Sereal_repo.txt")
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var fs []string
	for _, f := range strings.Split(string(b), "\x00") {
		if f == "" || strings.Contains(f, "/t/") || strings.Contains(f, "/xt/") || strings.HasSuffix(f, ".o") {
			continue
		}
		st, err := os.Lstat(filepath.Join(repo, f))
		if err != nil || !st.Mode().IsRegular() {
			continue
		}
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if len(fs) < 50 {
		return nil, fmt.Errorf("only %d source files of the Perl modules in %s", len(fs), repo)
	}
	return fs, nil
}

// perlKinds are the ways in which the modules are built: what follows make.
var perlKinds = map[string][]string{
	"plain": nil,
	"asan": {"OPTIMIZE=-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined",
		"LDDLFLAGS=-shared -fsanitize=address,undefined"},
}

// preparePerl builds the Perl modules of the tree, and the module of the harness that looks at values.
func preparePerl(kinds ...string) func(p *Parent) ([]string, error) {
	return func(p *Parent) ([]string, error) {
		repo := "/repo"
		if e := os.Getenv("VERIF_REPO"); e != "" {
			repo = e
		}
		fs, err := perlSources(repo)
		if err != nil {
			return nil, fmt.Errorf("the sources of the Perl modules: %v", err)
		}
		content := map[string][]byte{}
		h := sha256.New()
		put := func(name, file string) error {
			b, err := os.ReadFile(file)
			if err == nil {
				content[name] = b
				fmt.Fprintf(h, "%s %d\n", name, len(b))
				h.Write(b)
			}
			return err
		}
		for _, f := range fs {
			if err := put(f, filepath.Join(repo, f)); err != nil {
				return nil, err
			}
		}
		for _, f := range []string{"Audit.xs", "Audit.pm", "Makefile.PL"} {
			if err := put("Perl/Verif/"+f, filepath.Join(p.Root, "harness/perl", f)); err != nil {
				return nil, err
			}
		}
		sum := hex.EncodeToString(h.Sum(nil)[:8])
		env := []string{"VERIF_ROOT=" + p.Root}
		for _, kind := range kinds {
			dir := filepath.Join(p.buildDir, "perl-"+kind+"-"+sum)
			if err := buildPerl(p, kind, dir, content); err != nil {
				return nil, err
			}
			env = append(env, "VERIF_PERL_"+kind+"="+dir)
		}
		return env, nil
	}
}

func buildPerl(p *Parent, kind, dir string, content map[string][]byte) error {
	if _, err := os.Stat(filepath.Join(dir, "ok")); err == nil {
		return nil
	}
	old, _ := filepath.Glob(filepath.Join(p.buildDir, "perl-"+kind+"-*"))
	for _, o := range old {
		if st, err := os.Stat(o); err == nil && time.Since(st.ModTime()) > 20*time.Minute {
			os.RemoveAll(o)
		}
	}
	tmp, err := os.MkdirTemp(p.buildDir, "perl-"+kind+"-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(tmp)
	for f, b := range content {
		to := filepath.Join(tmp, f)
		os.MkdirAll(filepath.Dir(to), 0o755)
		if err := os.WriteFile(to, b, 0o644); err != nil {
			return err
		}
	}
	os.Mkdir(filepath.Join(tmp, ".git"), 0o755) // the build looks for it
	for _, m := range []string{"Encoder", "Decoder", "Verif"} {
		args := perlKinds[kind]
		if m == "Verif" {
			args = nil
		}
		cmd := exec.Command("sh", append([]string{"-c", `perl Makefile.PL </dev/null && make -j8 "$@"`, "sh"}, args...)...)
		cmd.Dir = filepath.Join(tmp, "Perl", m)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "PERL") && !strings.HasPrefix(e, "MAKE") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "PERL_MM_USE_DEFAULT=1", "PERL_HASH_SEED=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			if len(out) > 2000 {
				out = out[len(out)-2000:]
			}
			return fmt.Errorf("the Perl module %s does not build: %v\n%s", m, err, out)
		}
	}
	os.WriteFile(filepath.Join(tmp, "ok"), nil, 0o644)
	if err := os.Rename(tmp, dir); err != nil {
		if _, err2 := os.Stat(filepath.Join(dir, "ok")); err2 != nil {
			return err
		}
	}
	return nil
}

// perlProc is a running driver.
type perlProc struct {
	kind, script string
	cmd          *exec.Cmd
	in           *bufio.Writer
	out          *bufio.Reader
	errf         *os.File
	stackKB      int
	n            int
}

var thePerl *perlProc

func startPerl(kind, script string) (*perlProc, error) {
	p := &perlProc{kind: kind, script: script}
	return p, p.start()
}

func (p *perlProc) start() error {
	if p.kind == "java" {
		return p.run(javaCommand())
	}
	dir := os.Getenv("VERIF_PERL_" + p.kind)
	if dir == "" {
		return fmt.Errorf("VERIF_PERL_%s is not set", p.kind)
	}
	limits := "ulimit -c 0; "
	if p.kind == "plain" {
		limits += "ulimit -v 6000000; ulimit -s 8192 2>/dev/null; "
	} else {
		limits += "ulimit -s 1000000 2>/dev/null || ulimit -s $(ulimit -H -s); "
	}
	pre := ""
	env := append(os.Environ(), "PERL5LIB=", "PERL5OPT=", "PERL_HASH_SEED=0")
	if p.kind == "asan" {
		for _, l := range []string{"libasan.so", "libubsan.so"} {
			b, err := exec.Command("gcc", "-print-file-name="+l).Output()
			if err != nil {
				return err
			}
			if pre != "" {
				pre += ":"
			}
			pre += strings.TrimSpace(string(b))
		}
		env = append(env, "VERIF_PRE="+pre, "ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=99", "UBSAN_OPTIONS=print_stacktrace=1:exitcode=99")
		limits += `LD_PRELOAD="$VERIF_PRE"; export LD_PRELOAD; `
	}
	args := []string{"-c", limits + `exec perl "$@"`, "sh"}
	for _, m := range []string{"Encoder", "Decoder", "Verif"} {
		args = append(args, "-I"+filepath.Join(dir, "Perl", m, "blib/lib"), "-I"+filepath.Join(dir, "Perl", m, "blib/arch"))
	}
	args = append(args, filepath.Join(os.Getenv("VERIF_ROOT"), "harness", p.script))
	cmd := exec.Command("bash", args...)
	cmd.Env = env
	return p.run(cmd)
}

func (p *perlProc) run(cmd *exec.Cmd) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if p.errf == nil {
		if p.errf, err = os.CreateTemp("", "perl"); err != nil {
			return err
		}
		os.Remove(p.errf.Name())
	}
	p.errf.Truncate(0)
	p.errf.Seek(0, 0)
	cmd.Stderr = p.errf
	if err := cmd.Start(); err != nil {
		return err
	}
	p.cmd, p.in, p.out = cmd, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(o, 1<<16)
	return nil
}

func perlDone(c *Ctx) {
	if thePerl != nil {
		thePerl.cmd.Process.Kill()
		thePerl.cmd.Wait()
	}
}

// perlDied is the end of the Perl process.
type perlDied struct{ s string }

func (e *perlDied) Error() string { return e.s }

// call sends a message; an error is what Perl died of. The process is started again when it is gone.
func (p *perlProc) call(msg []byte) (string, error) {
	slow := false
	t := time.AfterFunc(100*time.Second, func() { slow = true; p.cmd.Process.Kill() })
	defer t.Stop()
	fail := func() error {
		t.Stop()
		p.cmd.Process.Kill()
		st := p.cmd.Wait()
		b := make([]byte, 1<<16)
		n, _ := p.errf.ReadAt(b, 0)
		b = b[:n]
		if i := bytes.Index(b, []byte("ERROR: AddressSanitizer")); i >= 0 {
			b = b[i:]
		} else if i := bytes.Index(b, []byte("runtime error:")); i >= 0 {
			b = b[max(0, i-200):]
		} else if len(b) > 1500 {
			b = b[len(b)-1500:]
		}
		if len(b) > 2200 {
			b = b[:2200]
		}
		what := fmt.Sprint("the process ended: ", st)
		if slow {
			what = "there is no end within 100 s"
		}
		if err := p.start(); err != nil {
			panic(err)
		}
		return &perlDied{what + "\n" + string(b)}
	}
	var l [4]byte
	binary.LittleEndian.PutUint32(l[:], uint32(len(msg)))
	p.in.Write(l[:])
	p.in.Write(msg)
	p.in.Flush()
	if _, err := io.ReadFull(p.out, l[:]); err != nil {
		return "", fail()
	}
	b := make([]byte, binary.LittleEndian.Uint32(l[:]))
	if _, err := io.ReadFull(p.out, b); err != nil {
		return "", fail()
	}
	if b[0] != 'K' {
		return "", fmt.Errorf("%s", strings.TrimSpace(string(b[1:])))
	}
	return string(b[1:]), nil
}
