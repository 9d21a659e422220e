package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/vk"

	"github.com/v2pro/plz/countlog/output/lumberjack"
)

const defaultFormat = "2006-01-02T15-04-05.000"

var formats = []string{"", "2006-01-02T15-04-05", "20060102150405.000000"}
var bases = []string{"app.log", "app", "my.app.log", "srv-1.txt", "web.d.d-"}

type old struct {
	name    string // without .gz
	at      time.Time
	age     time.Duration
	content []byte
	// how it is found: plain, gz, both (a crash between compressing and removing),
	// truncated (a crash while compressing)
	form string
}

type scenario struct {
	seed                 int64
	base, format         string
	local, compress      bool
	maxBackups, maxAge   int
	dir                  string
	olds                 []*old
	foreign              map[string][]byte
	foreignDirs          []string
	rotations, reopening int
}

func (s *scenario) String() string {
	names := []string{}
	for _, o := range s.olds {
		names = append(names, fmt.Sprintf("%s(%s,%s)", o.name, o.form, o.age))
	}
	return fmt.Sprintf("seed %d file %s format %q local %v compress %v max backups %d max age %d rotations %d reopening %d left: %s",
		s.seed, s.base, s.format, s.local, s.compress, s.maxBackups, s.maxAge, s.rotations, s.reopening, strings.Join(names, " "))
}

func content(rng *rand.Rand, id string) []byte {
	size := []int{0, 1, 100, 5000, 100000}[rng.Intn(5)]
	out := make([]byte, size)
	for i := range out {
		if rng.Intn(3) == 0 {
			out[i] = byte(rng.Intn(256))
		} else {
			out[i] = 'a' + byte(i%26)
		}
	}
	return append([]byte(id+"\n"), out...)
}

func gzipped(data []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(data)
	w.Close()
	return buf.Bytes()
}

func gunzip(data []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func split(base string) (prefix, ext string) {
	ext = filepath.Ext(base)
	return base[:len(base)-len(ext)] + "-", ext
}

func build(t *vk.T, seed int64) *scenario {
	rng := rand.New(rand.NewSource(seed))
	s := &scenario{seed: seed, foreign: map[string][]byte{}}
	s.base = bases[rng.Intn(len(bases))]
	s.format = formats[rng.Intn(len(formats))]
	s.local = rng.Intn(3) == 0
	s.compress = rng.Intn(2) == 0
	s.maxBackups = []int{0, 0, 1, 2, 3, 5, 8}[rng.Intn(7)]
	s.maxAge = []int{0, 0, 1, 2, 7}[rng.Intn(5)]
	s.rotations = 1 + rng.Intn(4)
	s.reopening = rng.Intn(3)
	s.dir = t.Scratch("ret")
	format := s.format
	if format == "" {
		format = defaultFormat
	}
	prefix, ext := split(s.base)
	now := time.Now()
	ages := []time.Duration{}
	for i := rng.Intn(9); i > 0; i-- {
		age := time.Duration(rng.Intn(24*10)) * time.Hour
		if s.maxAge > 0 && rng.Intn(2) == 0 {
			// near the limit, but not as near as this run can take
			off := time.Duration([]int{-20, -8, -3, -1, 1, 3, 8, 20}[rng.Intn(8)]) * time.Hour
			if rng.Intn(2) == 0 {
				off = time.Duration([]int{-59, -31, -29, -12, -6, 6, 12, 29, 31, 59}[rng.Intn(10)]) * time.Minute
			}
			age = time.Duration(s.maxAge)*24*time.Hour + off
		}
		if age == 0 {
			age = time.Hour
		}
		ages = append(ages, age)
	}
	sort.Slice(ages, func(i, j int) bool { return ages[i] < ages[j] })
	for i, age := range ages {
		if i > 0 && age == ages[i-1] {
			continue
		}
		if s.maxAge > 0 && age == time.Duration(s.maxAge)*24*time.Hour {
			age += time.Hour
			if i+1 < len(ages) && ages[i+1] == age {
				continue
			}
		}
		at := now.Add(-age)
		if !s.local {
			at = at.UTC()
		}
		o := &old{name: prefix + at.Format(format) + ext, at: at, age: age}
		o.content = content(rng, o.name)
		o.form = []string{"plain", "plain", "gz", "both"}[rng.Intn(4)]
		if s.compress {
			o.form = []string{"plain", "plain", "gz", "both", "truncated"}[rng.Intn(5)]
		}
		path := filepath.Join(s.dir, o.name)
		packed := gzipped(o.content)
		switch o.form {
		case "plain":
			write(t, path, o.content)
		case "gz":
			write(t, path+".gz", packed)
		case "both":
			write(t, path, o.content)
			write(t, path+".gz", packed)
		case "truncated":
			write(t, path, o.content)
			write(t, path+".gz", packed[:rng.Intn(len(packed))])
		}
		s.olds = append(s.olds, o)
	}
	long := now.Add(-40 * 24 * time.Hour)
	if !s.local {
		long = long.UTC()
	}
	stamp := long.Format(format)
	candidates := []string{
		prefix + "foo" + ext, prefix + ext, prefix + stamp + ext + ".bak", "x" + prefix + stamp + ext,
		prefix + stamp + ".other", "other-" + stamp + ext, prefix + stamp + "-1" + ext, prefix + stamp + ext + ".gz.tmp",
		"notes.txt", strings.TrimSuffix(prefix, "-") + stamp + ext, prefix + stamp + "x" + ext, s.base + ".1", s.base + ".gz",
		"sub/" + prefix + stamp + ext, prefix, prefix + ".gz",
	}
	// names that are nearly those of backups
	pieces := []string{".copy", "-1", ".gz", "~", " ", "x", ".0", ".", "-", "Z", "+0800", ".part", "_old", "é", "1", ext, prefix}
	for i := rng.Intn(6); i > 0; i-- {
		middle := stamp
		piece := pieces[rng.Intn(len(pieces))]
		switch at := rng.Intn(len(stamp) + 1); rng.Intn(5) {
		case 0:
			middle = stamp[:at] + piece + stamp[at:]
		case 1, 2:
			middle = stamp + piece
		case 3:
			middle = piece + stamp
		case 4:
			middle = stamp[:at]
		}
		name := prefix + middle + ext
		if rng.Intn(3) == 0 {
			name += ".gz"
		}
		if s.isBackup(format, name) || strings.Contains(name, "/") {
			continue
		}
		if _, err := os.Lstat(filepath.Join(s.dir, name)); err == nil {
			continue
		}
		candidates = append(candidates, name)
	}
	for _, name := range candidates {
		if rng.Intn(2) == 0 {
			continue
		}
		if name == s.base || s.foreign[name] != nil {
			continue
		}
		s.foreign[name] = content(rng, "foreign "+name)
		path := filepath.Join(s.dir, name)
		os.MkdirAll(filepath.Dir(path), 0755)
		write(t, path, s.foreign[name])
	}
	if rng.Intn(2) == 0 {
		// a directory that is named like a backup
		dir := prefix + now.Add(-50*24*time.Hour).Format(format) + ext
		os.MkdirAll(filepath.Join(s.dir, dir), 0755)
		s.foreignDirs = append(s.foreignDirs, dir)
		if rng.Intn(2) == 0 {
			name := dir + "/inside"
			s.foreign[name] = []byte("inside")
			write(t, filepath.Join(s.dir, name), s.foreign[name])
		}
	}
	if rng.Intn(3) == 0 {
		write(t, filepath.Join(s.dir, s.base), []byte("left\n"))
	}
	return s
}

// isBackup tells if a name is that of a backup, perhaps a compressed one
func (s *scenario) isBackup(format, name string) bool {
	prefix, ext := split(s.base)
	for _, end := range []string{ext, ext + ".gz"} {
		if strings.HasPrefix(name, prefix) && strings.HasSuffix(name, end) && len(name) >= len(prefix)+len(end) {
			if _, err := time.Parse(format, name[len(prefix):len(name)-len(end)]); err == nil {
				return true
			}
		}
	}
	return false
}

func write(t *vk.T, path string, data []byte) {
	if err := os.WriteFile(path, data, 0644); err != nil {
		t.Fatal("can not prepare files: " + err.Error())
	}
}

// backup is what must be there in the end
type backup struct {
	name    string
	content []byte
	packed  bool
	// the plain file and its compressed copy, which count as one backup
	both bool
}

// state compares the directory with what is expected and returns the first difference.
// settled is false when it is a difference that more patience might resolve.
func (s *scenario) state(expected map[string]*backup, created [][]byte, createdLeft int) (problem string, fatal bool) {
	for name, want := range s.foreign {
		got, err := os.ReadFile(filepath.Join(s.dir, name))
		if err != nil {
			return "file " + name + " is not a backup and must be left alone: " + err.Error(), true
		}
		if !bytes.Equal(got, want) {
			return "file " + name + " is not a backup and was changed", true
		}
	}
	for _, dir := range s.foreignDirs {
		if info, err := os.Stat(filepath.Join(s.dir, dir)); err != nil || !info.IsDir() {
			return "directory " + dir + " must be left alone", true
		}
	}
	entries, err := os.ReadDir(s.dir)
	if err != nil {
		return err.Error(), true
	}
	seen := map[string]bool{}
	fresh := map[string]bool{}
	oldNames := map[string]bool{}
	for _, o := range s.olds {
		oldNames[o.name] = true
	}
	for _, entry := range entries {
		name := entry.Name()
		if _, isForeign := s.foreign[name]; isForeign || entry.IsDir() || name == s.base {
			continue
		}
		plain := strings.TrimSuffix(name, ".gz")
		if oldNames[plain] {
			if expected[plain] == nil {
				return "backup " + name + " should be gone", false
			}
			seen[name] = true
			continue
		}
		fresh[name] = true
	}
	for name, want := range expected {
		path := filepath.Join(s.dir, name)
		if want.packed {
			if seen[name] {
				if !seen[name+".gz"] {
					return "backup " + name + " is not compressed yet", false
				}
				return "backup " + name + " is still there beside its compressed copy", false
			}
			if !seen[name+".gz"] {
				return "backup " + name + " should have been kept", true
			}
			packed, err := os.ReadFile(path + ".gz")
			if err != nil {
				return err.Error(), true
			}
			got, err := gunzip(packed)
			if err != nil {
				return "backup " + name + ".gz can not be read: " + err.Error(), false
			}
			if !bytes.Equal(got, want.content) {
				return "backup " + name + ".gz does not have the original content", true
			}
			continue
		}
		if !seen[name] {
			return "backup " + name + " should have been kept", true
		}
		got, err := os.ReadFile(path)
		if err != nil {
			return err.Error(), true
		}
		if !bytes.Equal(got, want.content) {
			return "backup " + name + " was changed", true
		}
		if !want.both && seen[name+".gz"] {
			return "backup " + name + " was compressed though compression is off", true
		}
		if want.both {
			if !seen[name+".gz"] {
				return "backup " + name + ".gz should have been kept", true
			}
			packed, err := os.ReadFile(path + ".gz")
			if err != nil {
				return err.Error(), true
			}
			if got, err := gunzip(packed); err != nil || !bytes.Equal(got, want.content) {
				return "backup " + name + ".gz was changed", true
			}
		}
	}
	if len(fresh) < createdLeft {
		return fmt.Sprintf("only %d of the newest %d backups are kept: %v", len(fresh), createdLeft, keys(fresh)), true
	}
	if len(fresh) > createdLeft {
		return fmt.Sprintf("%d new backups are kept instead of %d: %v", len(fresh), createdLeft, keys(fresh)), false
	}
	names := keys(fresh)
	// names in order of rotation
	sort.Strings(names)
	for i, name := range names {
		data, err := os.ReadFile(filepath.Join(s.dir, name))
		if err != nil {
			return err.Error(), false
		}
		if s.compress {
			if !strings.HasSuffix(name, ".gz") {
				return "backup " + name + " is not compressed yet", false
			}
			if data, err = gunzip(data); err != nil {
				return "backup " + name + " can not be read: " + err.Error(), false
			}
		}
		if want := created[len(created)-createdLeft+i]; !bytes.Equal(data, want) {
			return fmt.Sprintf("backup %s does not have the content that was rotated: %.60q instead of %.60q", name, data, want), true
		}
	}
	return "", false
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func run(t *vk.T, seed int64) {
	s := build(t, seed)
	defer os.RemoveAll(s.dir)
	rng := rand.New(rand.NewSource(seed + 1))
	file := filepath.Join(s.dir, s.base)
	newLogger := func() *lumberjack.Logger {
		return &lumberjack.Logger{Filename: file, MaxSize: 1, MaxBackups: s.maxBackups, MaxAge: s.maxAge, LocalTime: s.local, Compress: s.compress, BackupTimeFormat: s.format}
	}
	l := newLogger()
	current := []byte{}
	if left, err := os.ReadFile(file); err == nil {
		current = left
	}
	// the directory is watched all the time: what has to be kept must never be missing
	keep, created, createdLeft := s.expect(nil)
	_ = createdLeft
	for i := 0; i < s.rotations; i++ {
		body := content(rng, fmt.Sprintf("rotation %d", i))
		if n, err := l.Write(body); err != nil || n != len(body) {
			t.ViolateAsync("write", "%s: write returned %d, %v", s, n, err)
			return
		}
		current = append(current, body...)
		if err := l.Rotate(); err != nil {
			t.ViolateAsync("rotate", "%s: rotate returned %v", s, err)
			return
		}
		created = append(created, current)
		current = nil
		if s.reopening > 0 && rng.Intn(3) == 0 {
			l.Close()
			if s.reopening == 2 {
				// two loggers must not compress the same file at the same time
				s.settle(t, created, 20*time.Second)
				l = newLogger()
			}
		}
	}
	tail := content(rng, "tail")
	if n, err := l.Write(tail); err != nil || n != len(tail) {
		t.ViolateAsync("write", "%s: write returned %d, %v", s, n, err)
		return
	}
	if problem := s.settle(t, created, 25*time.Second); problem != "" {
		t.ViolateAsync("retention", "%s: %s", s, problem)
		return
	}
	if got, err := os.ReadFile(file); err != nil || !bytes.Equal(got, tail) {
		t.ViolateAsync("current", "%s: current file has %d bytes instead of %d (%v)", s, len(got), len(tail), err)
	}
	// it stays like that
	time.Sleep(50 * time.Millisecond)
	keep, created, createdLeft = s.expect(created)
	if problem, _ := s.state(keep, created, createdLeft); problem != "" {
		t.ViolateAsync("unstable", "%s: after everything settled: %s", s, problem)
	}
	l.Close()
	t.Eval(s.String())
	t.Count("backups_left_by_earlier_runs", len(s.olds))
	t.Count("expected_to_stay", len(keep)+createdLeft)
	t.Count("expected_to_go", len(s.olds)+len(created)-len(keep)-createdLeft)
	t.Count("foreign_files", len(s.foreign)+len(s.foreignDirs))
	if s.compress {
		t.Count("compressed", len(keep)+createdLeft)
	}
	for _, o := range s.olds {
		t.Count("left_as_"+o.form, 1)
	}
	t.Sample("scenario", s.String())
}

// expect tells which backups stay: the newest ones, of those the young ones
func (s *scenario) expect(created [][]byte) (map[string]*backup, [][]byte, int) {
	keep := map[string]*backup{}
	createdLeft := len(created)
	room := 1 << 30
	if s.maxBackups > 0 {
		room = s.maxBackups
	}
	if createdLeft > room {
		createdLeft = room
	}
	room -= createdLeft
	for _, o := range s.olds { // newest first
		if room == 0 {
			break
		}
		room--
		if s.maxAge > 0 && o.age > time.Duration(s.maxAge)*24*time.Hour {
			continue
		}
		keep[o.name] = &backup{name: o.name, content: o.content, packed: s.compress || o.form == "gz", both: !s.compress && o.form == "both"}
	}
	return keep, created, createdLeft
}

func (s *scenario) settle(t *vk.T, created [][]byte, patience time.Duration) string {
	keep, created, createdLeft := s.expect(created)
	deadline := time.Now().Add(patience)
	fatalSeen := 0
	for {
		problem, fatal := s.state(keep, created, createdLeft)
		if problem == "" {
			return ""
		}
		if fatal {
			// the directory is not read in one step: a file might just have been compressed
			if fatalSeen++; fatalSeen == 20 {
				return problem
			}
		} else {
			fatalSeen = 0
		}
		if time.Now().After(deadline) {
			return problem
		}
		time.Sleep(15 * time.Millisecond)
	}
}

// fullProcess compresses while files can not grow beyond a limit, and again without limit
func fullProcess(args []string) {
	signal.Ignore(syscall.SIGXFSZ)
	dir := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	rng := rand.New(rand.NewSource(seed))
	olds := map[string][]byte{}
	for i := 1 + rng.Intn(4); i > 0; i-- {
		name := "app-" + time.Now().Add(-time.Duration(i)*time.Hour).UTC().Format(defaultFormat) + ".log"
		data := make([]byte, []int{300, 3000, 20000, 40000, 100000}[rng.Intn(5)])
		rng.Read(data)
		olds[name] = data
		os.WriteFile(filepath.Join(dir, name), data, 0644)
		if rng.Intn(3) == 0 {
			// what an interrupted attempt has left, of another content, which might be longer
			stale := make([]byte, rng.Intn(150000))
			rng.Read(stale)
			os.WriteFile(filepath.Join(dir, name+".gz"), stale, 0644)
		}
	}
	// lost tells which backup is not there, neither as it was nor compressed
	lost := func() (problem string, packed int) {
		for name, data := range olds {
			path := filepath.Join(dir, name)
			if got, err := os.ReadFile(path); err == nil {
				if !bytes.Equal(got, data) {
					return name + " was changed", 0
				}
				continue
			}
			got, err := os.ReadFile(path + ".gz")
			if err != nil {
				return name + " is gone", 0
			}
			if got, err = gunzip(got); err != nil || !bytes.Equal(got, data) {
				return fmt.Sprintf("%s.gz does not give back the content: %v, %d of %d bytes", name, err, len(got), len(data)), 0
			}
			packed++
		}
		return "", packed
	}
	limit := []uint64{100, 1000, 15000, 20010, 60000}[rng.Intn(5)]
	old := syscall.Rlimit{}
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil || syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: old.Max}) != nil {
		fmt.Println("nolimit")
		return
	}
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "app.log"), MaxSize: 1, Compress: true}
	settle := func(complete bool) bool {
		last, stable := -1, 0
		for begin := time.Now(); time.Since(begin) < 25*time.Second; time.Sleep(10 * time.Millisecond) {
			problem, packed := lost()
			if problem != "" {
				fmt.Println("problem lost", problem)
				return false
			}
			if packed == len(olds) && complete {
				return true
			}
			if packed != last {
				last, stable = packed, 0
			}
			if stable++; stable == 40 && !complete {
				return true
			}
		}
		fmt.Println("problem uncompressed", last, "of", len(olds), "backups are compressed after 25 seconds without limit")
		return false
	}
	l.Write([]byte("first\n"))
	if err := l.Rotate(); err != nil {
		fmt.Println("problem rotate", err)
		return
	}
	if !settle(false) {
		return
	}
	_, before := lost()
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	l.Write([]byte("second\n"))
	if err := l.Rotate(); err != nil {
		fmt.Println("problem rotate", err)
		return
	}
	if settle(true) {
		fmt.Println("done", len(olds), before)
	}
}

func full(t *vk.T, seed int64) {
	dir := t.Scratch("full")
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err.Error())
	}
	cmd := exec.Command(exe, dir, strconv.FormatInt(seed, 10))
	cmd.Env = append(os.Environ(), "VK_MODE=full")
	out, err := cmd.CombinedOutput()
	for _, line := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(line, "problem ") {
			t.ViolateAsync("full-"+strings.Fields(line)[1], "backups compressed with limited file size, seed %d: %s", seed, line)
			return
		}
		if line == "nolimit" {
			t.Count("limits_refused", 1)
			return
		}
		var olds, before int
		if n, _ := fmt.Sscanf(line, "done %d %d", &olds, &before); n == 2 {
			t.Count("compressed_below_limit", before)
			t.Count("compressed_after_limit", olds-before)
			t.Eval(fmt.Sprintf("full %d", seed))
			return
		}
	}
	t.ViolateAsync("full-crash", "backups compressed with limited file size, seed %d: process ended with %v: %.2000s", seed, err, out)
}

func init() {
	// local time that is not UTC, ahead of it or behind it
	time.Local = time.FixedZone("AHEAD", 8*3600)
	if seed := os.Getenv("VERIF_SEED"); seed != "" && (seed[len(seed)-1]-'0')%2 == 0 {
		time.Local = time.FixedZone("BEHIND", -7*3600)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C14",
		Rule:          "seeded directories with backups left by earlier runs (plain, compressed, both (which count as one) after a crash, truncated gzip after a crash) of ages around the limit, foreign files and directories with similar names, then one to four rotations with every combination of maximum number, maximum age, compression, local time and time format, also by a second logger instance; processes that can not write files beyond a limit while they compress backups. Oracle: the set and content of all files in the directory after it settled. Non trivial: distinct scenarios.",
		Assumptions:   []string{"the clean up of one rotation of a few small files is done within 25 s", "ages are at least six minutes away from the limit"},
		MinNontrivial: 50,
		Modes:         map[string]func(args []string){"full": fullProcess},
		Run: func(t *vk.T) {
			rng := t.Rng("scenarios")
			n := t.N(256, 8000)
			for i := 0; i < n && !t.Violated(); i += 16 {
				t.Begin(func() string { return fmt.Sprintf("scenario %d", i) })
				var wg sync.WaitGroup
				for j := 0; j < 16; j++ {
					seed := rng.Int63n(1e12)
					wg.Add(1)
					go func() {
						defer wg.Done()
						run(t, seed)
						t.Tick()
					}()
				}
				wg.Wait()
			}
			n = t.N(48, 1600)
			for i := 0; i < n && !t.Violated(); i += 16 {
				t.Begin(func() string { return fmt.Sprintf("limited file size %d", i) })
				var wg sync.WaitGroup
				for j := 0; j < 16; j++ {
					seed := rng.Int63n(1e12)
					wg.Add(1)
					go func() {
						defer wg.Done()
						full(t, seed)
						t.Tick()
					}()
				}
				wg.Wait()
			}
		},
	})
}
