package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// javaJars finds the libraries that the Java code compresses with; without them only what needs none is checked.
func javaJars() []string {
	var jars []string
	for _, pat := range []string{"zstd-jni*.jar", "snappy-java*.jar"} {
		var found string
		for _, root := range []string{"/opt/veriftools/tlapm", "/usr/share/java", "/root/.m2"} {
			filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
				if err == nil && found == "" && !d.IsDir() {
					if ok, _ := filepath.Match(pat, d.Name()); ok {
						found = path
					}
				}
				return nil
			})
		}
		if found == "" {
			return nil
		}
		jars = append(jars, found)
	}
	return jars
}

// prepareJava compiles the Java implementation of the tree and the driver of the harness.
func prepareJava(p *Parent) ([]string, error) {
	repo := "/repo"
	if e := os.Getenv("VERIF_REPO"); e != "" {
		repo = e
	}
	var srcs []string
	base := filepath.Join(repo, "Java/sereal/src/main/java")
	err := filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(path, ".java") {
			srcs = append(srcs, path)
		}
		return err
	})
	if err != nil || len(srcs) < 15 {
		return nil, fmt.Errorf("the Java sources: %d files, %v", len(srcs), err)
	}
	own, _ := filepath.Glob(filepath.Join(p.Root, "harness/java/*.java"))
	srcs = append(srcs, own...)
	jars := javaJars()
	if jars == nil {
		stubs, _ := filepath.Glob(filepath.Join(p.Root, "harness/java/stub/*.java"))
		srcs = append(srcs, stubs...)
	}
	sort.Strings(srcs)
	h := sha256.New()
	for _, f := range srcs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fmt.Fprintf(h, "%s %d\n", strings.TrimPrefix(f, repo), len(b))
		h.Write(b)
	}
	dir := filepath.Join(p.buildDir, "java-"+hex.EncodeToString(h.Sum(nil)[:8]))
	env := []string{"VERIF_ROOT=" + p.Root, "VERIF_JAVA=" + strings.Join(append([]string{dir}, jars...), ":")}
	if _, err := os.Stat(filepath.Join(dir, "ok")); err == nil {
		return env, nil
	}
	old, _ := filepath.Glob(filepath.Join(p.buildDir, "java-*"))
	for _, o := range old {
		if st, err := os.Stat(o); err == nil && time.Since(st.ModTime()) > 20*time.Minute {
			os.RemoveAll(o)
		}
	}
	tmp, err := os.MkdirTemp(p.buildDir, "java-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	args := []string{"-nowarn", "-encoding", "UTF-8", "-d", tmp}
	if jars != nil {
		args = append(args, "-cp", strings.Join(jars, ":"))
	}
	if out, err := exec.Command("javac", append(args, srcs...)...).CombinedOutput(); err != nil {
		if len(out) > 2000 {
			out = out[:2000]
		}
		return nil, fmt.Errorf("the Java code does not compile: %v\n%s", err, out)
	}
	os.WriteFile(filepath.Join(tmp, "ok"), nil, 0o644)
	if err := os.Rename(tmp, dir); err != nil {
		if _, err2 := os.Stat(filepath.Join(dir, "ok")); err2 != nil {
			return nil, err
		}
	}
	return env, nil
}

func javaCommand() *exec.Cmd {
	path := os.Getenv("VERIF_JAVA")
	tmp, _, _ := strings.Cut(path, ":")
	cmd := exec.Command("java", "-Djava.io.tmpdir="+tmp, "-XX:ErrorFile=/dev/null", "-Xmx1500m", "-Xss32m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-Xshare:auto", "-cp", path, "Driver")
	cmd.Env = append(os.Environ(), "JAVA_TOOL_OPTIONS=", "_JAVA_OPTIONS=")
	return cmd
}

// javaTypes are the types of documents that both Java decoders take.
func javaType(r *Rng, version int) int {
	comp := javaHasComp()
	for {
		t := 0
		switch version {
		case 1:
			t = pick(r, 0, 0, 1)
		case 2:
			t = pick(r, 0, 0, 2)
		case 3:
			t = pick(r, 0, 0, 2, 3)
		default:
			t = pick(r, 0, 0, 2, 3, 4)
		}
		if comp || t == 0 || t == 3 {
			return t
		}
	}
}

func javaHasComp() bool { return strings.Contains(os.Getenv("VERIF_JAVA"), ":") }
