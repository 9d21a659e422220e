package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/countlog/output/lumberjack"
)

const megabyte = 1024 * 1024

// record has a content determined by its id and length
func record(id string, size int) []byte {
	head := fmt.Sprintf("<%s %d>", id, size)
	if size < len(head)+1 {
		size = len(head) + 1
	}
	out := make([]byte, size)
	copy(out, head)
	filler := []byte("0123456789abcdefghijklmnopqrstuvwxyz")
	for i := len(head); i < size-1; i++ {
		out[i] = filler[(i+len(id))%len(filler)]
	}
	out[size-1] = '\n'
	return out
}

type segment struct {
	name string
	data []byte
}

type backupFile struct {
	name string
	at   time.Time
}

// readAll returns the backups from oldest to newest followed by the current file
func readAll(dir, base, format string) ([]segment, error) {
	if format == "" {
		format = "2006-01-02T15-04-05.000"
	}
	entries, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	ext := filepath.Ext(base)
	prefix := base[:len(base)-len(ext)] + "-"
	var backups []backupFile
	hasCurrent := false
	for _, entry := range entries {
		name := entry.Name()
		if name == base {
			hasCurrent = true
			continue
		}
		if !strings.HasPrefix(name, prefix) || !strings.HasSuffix(name, ext) {
			return nil, fmt.Errorf("unexpected file %s", name)
		}
		at, err := time.Parse(format, name[len(prefix):len(name)-len(ext)])
		if err != nil {
			return nil, fmt.Errorf("unexpected backup name %s", name)
		}
		backups = append(backups, backupFile{name, at})
	}
	sort.Slice(backups, func(i, j int) bool { return backups[i].at.Before(backups[j].at) })
	var segments []segment
	for _, backup := range backups {
		data, err := os.ReadFile(filepath.Join(dir, backup.name))
		if err != nil {
			return nil, err
		}
		segments = append(segments, segment{backup.name, data})
	}
	if hasCurrent {
		data, err := os.ReadFile(filepath.Join(dir, base))
		if err != nil {
			return nil, err
		}
		segments = append(segments, segment{base, data})
	}
	return segments, nil
}

// oversized returns the first file that is too large
func oversized(dir string) string {
	entries, _ := os.ReadDir(dir)
	for _, entry := range entries {
		if info, err := entry.Info(); err == nil && info.Size() > megabyte {
			return fmt.Sprintf("%s has %d bytes", entry.Name(), info.Size())
		}
	}
	return ""
}

func pickSize(rng *rand.Rand) int {
	switch rng.Intn(12) {
	case 0:
		return megabyte
	case 1:
		return megabyte - rng.Intn(3)
	case 2:
		return megabyte + 1 + rng.Intn(5000)
	case 3, 4:
		return megabyte/2 + rng.Intn(5) - 2
	case 5, 6:
		return rng.Intn(300000) + 20
	default:
		return rng.Intn(3000) + 20
	}
}

var formats = []string{"", "", "2006-01-02T15-04-05.000000", "2006-01-02T15-04-05", "20060102150405.000"}
var bases = []string{"app.log", "app", "a.b.log", "server-1.txt"}

// sequential drives one file through a random history
func sequential(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	dir := t.Scratch("seq")
	defer os.RemoveAll(dir)
	base := bases[rng.Intn(len(bases))]
	file := filepath.Join(dir, "sub", base)
	format := formats[rng.Intn(len(formats))]
	newLogger := func() *lumberjack.Logger {
		return &lumberjack.Logger{Filename: file, MaxSize: 1, BackupTimeFormat: format, LocalTime: seed%2 == 0}
	}
	var content bytes.Buffer
	boundaries := map[int]bool{0: true}
	if rng.Intn(2) == 0 {
		// a file left by an earlier run
		os.MkdirAll(filepath.Dir(file), 0755)
		left := record("left", []int{0, 10, 1000, megabyte - 10, megabyte}[rng.Intn(5)])
		os.WriteFile(file, left, 0644)
		content.Write(left)
		boundaries[content.Len()] = true
	}
	l := newLogger()
	ops := ""
	rotations, reopened, refused := 0, 0, 0
	describe := func() string { return fmt.Sprintf("history seed %d file %s format %q: %s", seed, base, format, ops) }
	steps := 10 + rng.Intn(40)
	manual := rng.Intn(4)
	budget := 30 * megabyte
	outside := 0
	// another program appends to the closed file, which has room for it
	appendOutside := func() {
		info, err := os.Stat(file)
		if err != nil || rng.Intn(2) == 0 {
			return
		}
		room := megabyte - int(info.Size())
		if room < 100 {
			return
		}
		size := []int{100, room, room / 2, room - rng.Intn(60)}[rng.Intn(4)]
		rec := record(fmt.Sprintf("out%d", outside), size)
		if len(rec) > room {
			return
		}
		outside++
		budget -= len(rec)
		ops += fmt.Sprintf(" other-program-appends(%d)", len(rec))
		f, err := os.OpenFile(file, os.O_WRONLY|os.O_APPEND, 0644)
		if err == nil {
			_, err = f.Write(rec)
			f.Close()
		}
		if err != nil {
			t.Fatal("can not append: " + err.Error())
		}
		content.Write(rec)
		boundaries[content.Len()] = true
	}
	// mode and owner are given, a new file takes them over
	var mode os.FileMode
	owner, group := os.Getuid(), os.Getgid()
	given := false
	for i := 0; i < steps; i++ {
		if rng.Intn(20) == 0 {
			if _, err := os.Stat(file); err == nil {
				mode = []os.FileMode{0600, 0640, 0644, 0400, 0666, 0660, 0755, 0777, 0711, 0622}[rng.Intn(10)]
				if os.Getuid() == 0 {
					owner = []int{0, 12345, 23456}[rng.Intn(3)]
					group = []int{0, 12345, 34567}[rng.Intn(3)]
				} else {
					mode |= 0600
				}
				if os.Chmod(file, mode) == nil && os.Chown(file, owner, group) == nil {
					given = true
					ops += fmt.Sprintf(" chmod(%o,%d,%d)", mode, owner, group)
				} else {
					t.Fatal("can not change mode")
				}
			}
		}
		switch op := rng.Intn(12); {
		case op == 0:
			ops += " close"
			if err := l.Close(); err != nil {
				t.ViolateAsync("close", "%s: close failed: %v", describe(), err)
			}
			reopened++
			appendOutside()
		case op == 1:
			ops += " new"
			l.Close()
			appendOutside()
			l = newLogger()
			reopened++
		case op < 2+manual:
			for n := rng.Intn(3); n >= 0; n-- {
				ops += " rotate"
				if err := l.Rotate(); err != nil {
					t.ViolateAsync("rotate", "%s: rotate failed: %v", describe(), err)
				}
				rotations++
			}
		default:
			size := pickSize(rng)
			if size > budget {
				size = 100
			}
			budget -= size
			rec := record(fmt.Sprint(i), size)
			ops += fmt.Sprintf(" write(%d)", len(rec))
			buf := append([]byte(nil), rec...)
			n, err := l.Write(buf)
			if len(rec) > megabyte {
				refused++
				if err == nil || n != 0 {
					t.ViolateAsync("too-large", "%s: write of %d bytes returned %d, %v", describe(), len(rec), n, err)
				}
			} else if err != nil || n != len(rec) {
				t.ViolateAsync("write", "%s: write of %d bytes returned %d, %v", describe(), len(rec), n, err)
			} else {
				content.Write(rec)
				boundaries[content.Len()] = true
			}
		}
		if large := oversized(filepath.Dir(file)); large != "" {
			t.ViolateAsync("size", "%s: %s", describe(), large)
		}
		if info, err := os.Stat(file); given && err == nil {
			if got := info.Mode().Perm(); got != mode {
				t.ViolateAsync("mode", "%s: file has mode %o instead of %o", describe(), got, mode)
			}
			if stat, ok := info.Sys().(*syscall.Stat_t); ok && int(stat.Uid) != owner {
				t.ViolateAsync("owner", "%s: file belongs to %d instead of %d", describe(), stat.Uid, owner)
			} else if ok && int(stat.Gid) != group {
				t.ViolateAsync("owner", "%s: file belongs to group %d instead of %d", describe(), stat.Gid, group)
			}
		}
	}
	// what is on disk before close is what counts, there is no buffering
	segments, err := readAll(filepath.Dir(file), base, format)
	if err != nil && content.Len() > 0 {
		t.ViolateAsync("files", "%s: %v", describe(), err)
		return
	}
	if open := hx.OpenFiles(filepath.Dir(file)); len(open) > 1 {
		t.ViolateAsync("left-open", "%s: files open besides the current one: %v", describe(), open)
	}
	l.Close()
	if open := hx.OpenFiles(filepath.Dir(file)); len(open) > 0 {
		t.ViolateAsync("left-open", "%s: files open after close: %v", describe(), open)
	}
	var got bytes.Buffer
	for _, s := range segments {
		got.Write(s.data)
		if got.Len() <= content.Len() && !boundaries[got.Len()] {
			t.ViolateAsync("torn", "%s: file %s ends within a write", describe(), s.name)
		}
	}
	if !bytes.Equal(got.Bytes(), content.Bytes()) {
		t.ViolateAsync("content", "%s: %d bytes on disk, %d bytes were written, they differ from byte %d on", describe(), got.Len(), content.Len(), firstDiff(got.Bytes(), content.Bytes()))
	}
	t.Eval(ops)
	t.Count("manual_rotations", rotations)
	t.Count("reopened", reopened)
	t.Count("appended_by_another_program", outside)
	t.Count("refused_writes", refused)
	t.Count("files", len(segments))
	t.Count("megabytes_compared", content.Len()/megabyte)
	t.Sample("history", map[string]interface{}{"ops": ops, "files": len(segments)})
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// parse splits the files into records, by their head
func parse(segments []segment) (ids []string, problem string) {
	for _, s := range segments {
		data := s.data
		for len(data) > 0 {
			end := bytes.IndexByte(data, '>')
			if data[0] != '<' || end < 0 {
				return ids, fmt.Sprintf("%s: no record starts where one ended: %.60q", s.name, data)
			}
			parts := strings.Split(string(data[1:end]), " ")
			if len(parts) != 2 {
				return ids, fmt.Sprintf("%s: broken head %q", s.name, data[:end])
			}
			size, _ := strconv.Atoi(parts[1])
			want := record(parts[0], size)
			if len(data) < len(want) || !bytes.Equal(data[:len(want)], want) {
				return ids, fmt.Sprintf("%s: record %s is broken", s.name, parts[0])
			}
			ids = append(ids, parts[0])
			data = data[len(want):]
		}
	}
	return ids, ""
}

// concurrent lets many goroutines write and rotate one file
func concurrent(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	dir := t.Scratch("conc")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "app.log")
	l := &lumberjack.Logger{Filename: file, MaxSize: 1}
	writers := 2 + rng.Intn(8)
	each := 20 + rng.Intn(60)
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		w := w
		own := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				rec := record(fmt.Sprintf("%d.%d", w, i), own.Intn(40000)+30)
				if n, err := l.Write(rec); err != nil || n != len(rec) {
					t.ViolateAsync("write", "concurrent write of %d bytes returned %d, %v", len(rec), n, err)
				}
				switch own.Intn(40) {
				case 0:
					l.Rotate()
				case 1:
					l.Close()
				}
			}
		}()
	}
	wg.Wait()
	if large := oversized(dir); large != "" {
		t.ViolateAsync("size", "concurrent seed %d: %s", seed, large)
	}
	l.Close()
	if open := hx.OpenFiles(dir); len(open) > 0 {
		t.ViolateAsync("left-open", "concurrent seed %d: files open after close: %v", seed, open)
	}
	segments, err := readAll(dir, "app.log", "")
	if err != nil {
		t.ViolateAsync("files", "concurrent seed %d: %v", seed, err)
		return
	}
	ids, problem := parse(segments)
	if problem != "" {
		t.ViolateAsync("content", "concurrent seed %d: %s", seed, problem)
		return
	}
	next := make([]int, writers)
	for _, id := range ids {
		var w, i int
		fmt.Sscanf(id, "%d.%d", &w, &i)
		if w >= writers || i != next[w] {
			t.ViolateAsync("order", "concurrent seed %d: record %d of writer %d found, expected record %d", seed, i, w, next[w])
			return
		}
		next[w]++
	}
	for w, n := range next {
		if n != each {
			t.ViolateAsync("lost", "concurrent seed %d: %d of %d records of writer %d found", seed, n, each, w)
		}
	}
	t.Eval(fmt.Sprintf("conc %d %d %d", writers, each, len(segments)))
	t.Count("concurrent_records", len(ids))
}

// writerProcess is killed by the parent: it acknowledges every accepted write on stdout
func writerProcess(args []string) {
	file, from, seed := args[0], args[1], args[2]
	start, _ := strconv.Atoi(from)
	n, _ := strconv.ParseInt(seed, 10, 64)
	rng := rand.New(rand.NewSource(n))
	l := &lumberjack.Logger{Filename: file, MaxSize: 1}
	for i := start; i < start+100000; i++ {
		size := rng.Intn(20000) + 20
		if rng.Intn(10) == 0 {
			size = rng.Intn(400000) + 20
		}
		rec := record(fmt.Sprint(i), size)
		fmt.Printf("try %d %d\n", i, size)
		if n, err := l.Write(rec); err != nil || n != len(rec) {
			fmt.Printf("failed %d %v\n", i, err)
			os.Exit(0)
		}
		fmt.Printf("ack %d\n", i)
		if rng.Intn(15) == 0 {
			l.Rotate()
		}
	}
}

type attempt struct {
	data  []byte
	acked bool
}

// killed runs the writer in a process of its own, which is killed again and again
func killed(t *vk.T, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	dir := t.Scratch("kill")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "app.log")
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err.Error())
	}
	var attempts []attempt
	next := 0
	kills := 0
	for run := 0; run < 4; run++ {
		cmd := exec.Command(exe, file, strconv.Itoa(next), strconv.FormatInt(rng.Int63(), 10))
		cmd.Env = append(os.Environ(), "VK_MODE=writer")
		out, err := os.Create(filepath.Join(t.Scratch("ack"), "out"))
		if err != nil {
			t.Fatal(err.Error())
		}
		cmd.Stdout = out
		if err := cmd.Start(); err != nil {
			t.Fatal(err.Error())
		}
		time.Sleep(time.Duration(100+rng.Intn(250)) * time.Millisecond)
		cmd.Process.Kill()
		cmd.Wait()
		kills++
		out.Close()
		data, _ := os.ReadFile(out.Name())
		os.Remove(out.Name())
		lines := strings.Split(string(data), "\n")
		for _, line := range lines[:len(lines)-1] {
			var i, size int
			if n, _ := fmt.Sscanf(line, "try %d %d", &i, &size); n == 2 {
				attempts = append(attempts, attempt{data: record(strconv.Itoa(i), size)})
				next = i + 1
			} else if n, _ := fmt.Sscanf(line, "ack %d", &i); n == 1 {
				attempts[len(attempts)-1].acked = true
			} else {
				t.ViolateAsync("kill-write", "kill seed %d: %s", seed, line)
			}
		}
		next += 10
	}
	if large := oversized(dir); large != "" {
		t.ViolateAsync("size", "kill seed %d: %s", seed, large)
	}
	segments, err := readAll(dir, "app.log", "")
	if err != nil {
		t.ViolateAsync("files", "kill seed %d: %v", seed, err)
		return
	}
	var all []byte
	ends := map[int]bool{}
	for _, s := range segments {
		all = append(all, s.data...)
		ends[len(all)] = true
	}
	pos, acked, partial := 0, 0, 0
	for i, a := range attempts {
		if a.acked {
			acked++
		}
		if bytes.HasPrefix(all[pos:], a.data) {
			for p := pos + 1; p < pos+len(a.data); p++ {
				if ends[p] {
					t.ViolateAsync("torn", "kill seed %d: record %d spans two files", seed, i)
				}
			}
			pos += len(a.data)
			continue
		}
		if a.acked {
			t.ViolateAsync("lost", "kill seed %d: accepted record %d is not where it should be, found %.60q", seed, i, all[pos:])
			return
		}
		// the write that was going on when the process was killed
		n := 0
		for n < len(a.data) && pos+n < len(all) && all[pos+n] == a.data[n] {
			n++
		}
		// the next record starts with the same character
		for n > 0 && pos+n < len(all) && all[pos+n] != '<' {
			n--
		}
		if n > 0 {
			partial++
		}
		pos += n
	}
	if pos != len(all) {
		t.ViolateAsync("content", "kill seed %d: %d unexpected bytes at the end: %.60q", seed, len(all)-pos, all[pos:])
	}
	t.Eval(fmt.Sprintf("kill %d", seed))
	t.Count("kills", kills)
	t.Count("acknowledged_before_kill", acked)
	t.Count("partial_writes_at_kill", partial)
	t.Count("files_after_kill", len(segments))
}

// limit sets the soft limit and returns the function that restores it
func limit(resource int, value uint64) (restore func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(resource, &old); err != nil {
		fmt.Println("nolimit", err)
		os.Exit(0)
	}
	if err := syscall.Setrlimit(resource, &syscall.Rlimit{Cur: value, Max: old.Max}); err != nil {
		fmt.Println("nolimit", err)
		os.Exit(0)
	}
	return func() { syscall.Setrlimit(resource, &old) }
}

// faultyProcess drives one file through a random history during which now and then files
// can not be opened or can not grow. What Write says has been written must be there.
func faultyProcess(args []string) {
	file := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	signal.Ignore(syscall.SIGXFSZ)
	rng := rand.New(rand.NewSource(seed))
	l := &lumberjack.Logger{Filename: file, MaxSize: 1}
	var expected []byte
	var steps []string
	type whole struct{ from, to int }
	var wholes []whole
	opened, grown, kept, failedOnce := 0, 0, 0, false
	for i := 0; i < 40; i++ {
		restore := func() {}
		fault := ""
		switch rng.Intn(5) {
		case 0:
			fault = "no more files"
			restore = limit(syscall.RLIMIT_NOFILE, 3)
		case 1:
			max := rng.Intn(megabyte)
			fault = fmt.Sprintf("no more than %d bytes", max)
			restore = limit(syscall.RLIMIT_FSIZE, uint64(max))
		}
		step := ""
		switch op := rng.Intn(10); {
		case op < 8:
			rec := record(fmt.Sprint(i), pickSize(rng))
			n, err := l.Write(rec)
			step = fmt.Sprintf("write %d: %d %v", len(rec), n, err)
			if n < 0 || n > len(rec) || (err == nil && n != len(rec)) {
				fmt.Println("problem count", step)
				n = 0
			}
			if err == nil {
				wholes = append(wholes, whole{len(expected), len(expected) + n})
			} else if n > 0 {
				kept++
			}
			if err != nil && fault != "" && len(rec) <= megabyte {
				failedOnce = true
				if fault == "no more files" {
					opened++
				} else {
					grown++
				}
			}
			if err != nil && fault == "" && len(rec) <= megabyte {
				fmt.Println("problem recover", step)
			}
			expected = append(expected, rec[:n]...)
		case op == 8:
			step = fmt.Sprint("rotate: ", l.Rotate())
		default:
			step = fmt.Sprint("close: ", l.Close())
			if rng.Intn(2) == 0 {
				l = &lumberjack.Logger{Filename: file, MaxSize: 1}
				step += " new logger"
			}
		}
		restore()
		steps = append(steps, step+" "+fault)
		time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
	}
	l.Close()
	if large := oversized(filepath.Dir(file)); large != "" {
		fmt.Println("problem size", large)
	}
	segments, err := readAll(filepath.Dir(file), filepath.Base(file), "")
	if err != nil {
		fmt.Println("problem files", err)
	}
	var all []byte
	var ends []int
	for _, s := range segments {
		all = append(all, s.data...)
		ends = append(ends, len(all))
	}
	if !bytes.Equal(all, expected) {
		at := firstDiff(all, expected)
		fmt.Printf("problem content differs at %d of %d, has %d: %.60q instead of %.60q, steps %.1500q\n", at, len(expected), len(all), all[at:], expected[at:], steps)
	}
	for _, w := range wholes {
		for _, end := range ends {
			if end > w.from && end < w.to {
				fmt.Printf("problem torn write of bytes %d to %d is spread over two files\n", w.from, w.to)
			}
		}
	}
	fmt.Println("done", opened, grown, kept, failedOnce)
}

// faulty runs the history in a process of its own, because the limits are those of the process
func faulty(t *vk.T, seed int64) {
	dir := t.Scratch("faulty")
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err.Error())
	}
	cmd := exec.Command(exe, filepath.Join(dir, "app.log"), strconv.FormatInt(seed, 10))
	cmd.Env = append(os.Environ(), "VK_MODE=faulty")
	out, err := cmd.CombinedOutput()
	done := false
	for _, line := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		if strings.HasPrefix(line, "problem ") {
			sig := "fault-" + strings.Fields(line)[1]
			t.ViolateAsync(sig, "faulty seed %d: %s", seed, line)
		} else if strings.HasPrefix(line, "nolimit") {
			t.Count("limits_refused", 1)
			return
		} else {
			var opened, grown, kept int
			var failedOnce bool
			if n, _ := fmt.Sscanf(line, "done %d %d %d %v", &opened, &grown, &kept, &failedOnce); n == 4 {
				done = true
				t.Count("writes_failed_opening", opened)
				t.Count("writes_failed_growing", grown)
				t.Count("failed_writes_kept_in_part", kept)
				if failedOnce {
					t.Eval(fmt.Sprintf("faulty %d", seed))
				} else {
					t.Eval("")
				}
			}
		}
	}
	if !done {
		t.ViolateAsync("fault-crash", "faulty seed %d: process ended with %v: %.2000s", seed, err, out)
	}
}

func main() {
	vk.Main(vk.Check{
		ID:            "C13",
		Rule:          "seeded histories of writes (1 byte to just over the maximum of one megabyte), manual rotation in bursts, close, new logger on the same file and files left by earlier runs, with several names and time formats (also of one second resolution); concurrent writers with rotation and close; a writer process killed four times and restarted; a writer process for which now and then no file can be opened or grown beyond a limit (part of a write is done then). Oracle: bytes of backups in order of their timestamps plus current file against the accepted writes. Non trivial: distinct histories.",
		Assumptions:   []string{"nobody else touches the directory, and the only faults of the file system are that files can not be opened, created, listed or grown", "a write interrupted by the kill may be there in part"},
		MinNontrivial: 20,
		Modes:         map[string]func(args []string){"writer": writerProcess, "faulty": faultyProcess},
		Run: func(t *vk.T) {
			rng := t.Rng("histories")
			run := func(n, parallel int, what string, f func(t *vk.T, seed int64)) {
				for i := 0; i < n && !t.Violated(); i += parallel {
					t.Begin(func() string { return fmt.Sprintf("%s %d", what, i) })
					var wg sync.WaitGroup
					for j := 0; j < parallel; j++ {
						seed := rng.Int63n(1e12)
						wg.Add(1)
						go func() {
							defer wg.Done()
							f(t, seed)
							t.Tick()
						}()
					}
					wg.Wait()
				}
			}
			run(t.N(64, 1600), 8, "sequential", sequential)
			run(t.N(24, 600), 8, "concurrent", concurrent)
			run(t.N(8, 160), 8, "killed", killed)
			run(t.N(32, 1600), 8, "faulty", faulty)
		},
	})
}
