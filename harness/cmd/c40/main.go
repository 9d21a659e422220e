package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/hx"
	"verifharness/vk"

	"github.com/v2pro/plz/clock"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/rotation"
)

func numbered(id, n, size int) []byte {
	line := fmt.Sprintf("%d.%d:", id, n)
	for len(line) < size {
		line += string(rune('a' + (n+len(line))%26))
	}
	return []byte(line + "\n")
}

// ---------------------------------------------------------------- the writer

// naming gives every archive a new name and lists the oldest first
type naming struct {
	dir     string
	n       int
	failing func() bool
}

func (s *naming) NextFile() (string, error) {
	if s.failing != nil && s.failing() {
		return "", errors.New("no name available")
	}
	s.n++
	return filepath.Join(s.dir, fmt.Sprintf("archive-%06d", s.n)), nil
}

func (s *naming) ListFiles() ([]rotation.Archive, error) {
	names, err := filepath.Glob(filepath.Join(s.dir, "archive-*"))
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	archives := make([]rotation.Archive, 0, len(names))
	for _, name := range names {
		archives = append(archives, rotation.Archive{Path: name})
	}
	return archives, nil
}

// archiver observes the archiving
type archiver struct {
	rotation.ArchiveStrategy
	calls    int64
	archived int64 // calls that found something to archive
	path     string
	slow     func()
	wrong    string
}

func (a *archiver) Archive(path string) ([]rotation.Archive, error) {
	a.slow()
	atomic.AddInt64(&a.calls, 1)
	if path != a.path {
		a.wrong = path
	}
	if _, err := os.Stat(path); err == nil {
		atomic.AddInt64(&a.archived, 1)
	}
	archives, err := a.ArchiveStrategy.Archive(path)
	a.slow()
	return archives, err
}

// purger observes what is purged and keeps the content
type purger struct {
	rotation.PurgeStrategy
	mutex  sync.Mutex
	purged []string
}

func (p *purger) Purge(set []rotation.Archive) error {
	p.mutex.Lock()
	defer p.mutex.Unlock()
	for _, archive := range set {
		// kept under another name: the writer may still append to it
		kept := filepath.Join(filepath.Dir(archive.Path), "kept-"+filepath.Base(archive.Path))
		if err := os.Link(archive.Path, kept); err != nil {
			return err
		}
		p.purged = append(p.purged, archive.Path)
	}
	return p.PurgeStrategy.Purge(set)
}

// sizes triggers like TriggerBySize, in bytes, and sees every write
type sizes struct {
	limit int64
	every time.Duration
}

func (s *sizes) UpdateStat(stat interface{}, file *os.File, buf []byte) (interface{}, bool, error) {
	info, err := file.Stat()
	if err != nil {
		return nil, false, err
	}
	size := info.Size()
	if stat != nil {
		size = stat.(int64) + int64(len(buf))
	}
	return size, size >= s.limit, nil
}

func (s *sizes) TimeToTrigger() time.Duration { return s.every }

func writers(t *vk.T) {
	rng := t.Rng("writer")
	for i := 0; i < t.N(60, 1500) && !t.Violated(); i++ {
		dir := t.Scratch(fmt.Sprint("w", i))
		sub := dir
		path := filepath.Join(sub, "current.log")
		if rng.Intn(3) == 0 {
			path = filepath.Join(sub, "not", "there", "current.log")
		}
		var expect []byte
		if rng.Intn(3) == 0 && filepath.Dir(path) == dir {
			expect = numbered(i, 999999, rng.Intn(3000))
			os.WriteFile(path, expect, 0644)
		}
		existing := len(expect)
		keep := rng.Intn(5)
		if rng.Intn(3) == 0 {
			keep = 100000
		}
		delay := time.Duration(rng.Intn(3)) * 200 * time.Microsecond
		slowRng := rand.New(rand.NewSource(rng.Int63()))
		arch := &archiver{ArchiveStrategy: &rotation.ArchiveByMove{NamingStrategy: &naming{dir: dir}}, path: path, slow: func() {
			if delay > 0 {
				time.Sleep(time.Duration(slowRng.Int63n(int64(delay))))
			}
		}}
		purge := &purger{PurgeStrategy: &rotation.PurgeByDelete{}}
		limitKB := int64(rng.Intn(3) + 1)
		kind := rng.Intn(4)
		var trigger rotation.TriggerStrategy
		limit := int64(0)
		switch kind {
		case 0:
			limit = limitKB * 1024
			trigger = &bySize{TriggerStrategy: &rotation.TriggerBySize{SizeInKB: limitKB}}
		case 1:
			trigger = &bySize{TriggerStrategy: &rotation.TriggerByInterval{Interval: time.Duration(rng.Intn(20)+1) * time.Millisecond}}
		case 2:
			limit = int64(rng.Intn(400) + 1)
			trigger = &sizes{limit: limit}
		case 3:
			limit = int64(rng.Intn(400) + 1)
			trigger = &sizes{limit: limit, every: time.Duration(rng.Intn(3000)+100) * time.Microsecond}
		}
		cfg := rotation.Config{WritePath: path, TriggerStrategy: trigger, ArchiveStrategy: arch,
			RetainStrategy: &rotation.RetainByCount{MaxArchivesCount: keep}, PurgeStrategy: purge}
		writes := rng.Intn(400) + 50
		maxSize := []int{1, 20, 100, 1000}[rng.Intn(4)]
		sessions := rng.Intn(3) + 1
		what := fmt.Sprintf("trigger %d limit %d keep %d delay %v, %d sessions of %d writes up to %d bytes, %d bytes exist", kind, limit, keep, delay, sessions, writes, maxSize, existing)
		t.Begin(func() string { return what })
		n := 0
		var wrote int64
		for session := 0; session < sessions; session++ {
			writer, err := rotation.NewWriter(cfg)
			if err != nil {
				t.ViolateAsync("open", "%s: can not open: %v", what, err)
				break
			}
			for j := 0; j < writes; j++ {
				buf := numbered(i, n, rng.Intn(maxSize)+1)
				n++
				got, err := writer.Write(buf)
				if err != nil || got != len(buf) {
					t.ViolateAsync("write", "%s: write %d of %d bytes returns %d, %v", what, n, len(buf), got, err)
				}
				wrote += int64(got)
				expect = append(expect, buf[:got]...)
				if rng.Intn(8) == 0 {
					time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
				}
			}
			// a size limit that is reached is noticed although nothing else happens
			if limit > 0 && session == sessions-1 {
				deadline := time.Now().Add(20 * time.Second)
				before := atomic.LoadInt64(&arch.archived)
				for atomic.LoadInt64(&arch.archived) == before {
					if time.Now().After(deadline) {
						t.ViolateAsync("trigger", "%s: the file is not archived within 20 s although it grows over the limit again and again", what)
						break
					}
					buf := numbered(i, n, int(limit)+1)
					n++
					got, err := writer.Write(buf)
					if err != nil || got != len(buf) {
						t.ViolateAsync("write", "%s: write %d of %d bytes returns %d, %v", what, n, len(buf), got, err)
					}
					expect = append(expect, buf[:got]...)
					time.Sleep(time.Millisecond)
					t.Tick()
				}
			}
			if err := writer.Close(); err != nil {
				t.ViolateAsync("close", "%s: close returns %v", what, err)
			}
			if open := hx.OpenFiles(dir); len(open) > 0 {
				t.ViolateAsync("left-open", "%s: files open after close: %v", what, open)
			}
			calls := atomic.LoadInt64(&arch.calls)
			if rng.Intn(4) == 0 {
				time.Sleep(10 * time.Millisecond)
				if atomic.LoadInt64(&arch.calls) != calls {
					t.ViolateAsync("closed", "%s: the closed writer goes on archiving", what)
				}
			}
		}
		// everything is in the archives, oldest first, and the current file
		var files []string
		var all []byte
		archives, _ := filepath.Glob(filepath.Join(dir, "archive-*"))
		kept, _ := filepath.Glob(filepath.Join(dir, "kept-archive-*"))
		sort.Strings(archives)
		sort.Strings(kept)
		sizesOf := []int{}
		for _, name := range append(append([]string{}, kept...), archives...) {
			content, err := os.ReadFile(name)
			if err != nil {
				t.Fatal(err.Error())
			}
			files = append(files, filepath.Base(name))
			sizesOf = append(sizesOf, len(content))
			all = append(all, content...)
			if len(content) > 0 && content[len(content)-1] != '\n' {
				t.ViolateAsync("torn", "%s: %s ends in the middle of a write", what, name)
			}
		}
		current, err := os.ReadFile(path)
		if err != nil && !os.IsNotExist(err) {
			t.Fatal(err.Error())
		}
		all = append(all, current...)
		sizesOf = append(sizesOf, len(current))
		if !bytes.Equal(all, expect) {
			at := 0
			for at < len(all) && at < len(expect) && all[at] == expect[at] {
				at++
			}
			t.ViolateAsync("content", "%s: the files %v of sizes %v hold %d bytes, %d were written, they differ at %d: %q instead of %q", what, files, sizesOf, len(all), len(expect), at, clip(all, at), clip(expect, at))
		}
		if len(archives) > keep {
			t.ViolateAsync("keep", "%s: %d archives are left", what, len(archives))
		}
		for _, archive := range archives {
			for _, gone := range kept {
				if strings.TrimPrefix(filepath.Base(gone), "kept-") >= filepath.Base(archive) {
					t.ViolateAsync("newest", "%s: %s is purged, %s is kept", what, gone, archive)
				}
			}
		}
		if keep == 100000 && len(kept) > 0 {
			t.ViolateAsync("purged", "%s: %v are purged", what, kept)
		}
		if len(kept) > 0 && len(archives) != keep {
			t.ViolateAsync("keep-exactly", "%s: %d archives are left although %d were purged", what, len(archives), len(kept))
		}
		if arch.wrong != "" {
			t.ViolateAsync("path", "%s: %s is archived", what, arch.wrong)
		}
		if b, ok := trigger.(*bySize); ok && b.wrong != "" {
			t.ViolateAsync("size-trigger", "%s: %s", what, b.wrong)
		}
		rotations := len(archives) + len(kept)
		t.Eval(fmt.Sprint("writer", kind, rotations, keep, sessions))
		t.Count("writer histories", 1)
		t.Count("rotations", rotations)
		t.Count("writes", n)
		if i < 4 {
			t.Sample("writer", fmt.Sprint(what, " -> ", files, sizesOf))
		}
		os.RemoveAll(dir)
	}
}

func clip(b []byte, at int) string {
	end := at + 60
	if end > len(b) {
		end = len(b)
	}
	if at > end {
		return ""
	}
	return string(b[at:end])
}

// bySize checks that the trigger fires exactly when the file has reached the size
type bySize struct {
	rotation.TriggerStrategy
	wrong string
}

func (b *bySize) UpdateStat(stat interface{}, file *os.File, buf []byte) (interface{}, bool, error) {
	newStat, triggered, err := b.TriggerStrategy.UpdateStat(stat, file, buf)
	trigger, ok := b.TriggerStrategy.(*rotation.TriggerBySize)
	if !ok {
		if triggered {
			b.wrong = "the interval trigger triggers on a write"
		}
		return newStat, triggered, err
	}
	info, statErr := file.Stat()
	if statErr != nil || err != nil {
		b.wrong = fmt.Sprint("can not get the size: ", statErr, err)
	} else if want := info.Size() >= trigger.SizeInKB*1024; want != triggered {
		b.wrong = fmt.Sprintf("the size trigger of %d KB says %v for a file of %d bytes", trigger.SizeInKB, triggered, info.Size())
	}
	return newStat, triggered, err
}

// ---------------------------------------------------------------- errors on the way

// stumble makes archiving fail at times: nothing is lost and writing goes on
func stumble(t *vk.T) {
	rng := t.Rng("stumble")
	for i := 0; i < t.N(25, 400); i++ {
		dir := t.Scratch(fmt.Sprint("s", i))
		path := filepath.Join(dir, "current.log")
		var failures int64
		failRng := rand.New(rand.NewSource(rng.Int63()))
		arch := &archiver{path: path, slow: func() {}, ArchiveStrategy: &rotation.ArchiveByMove{NamingStrategy: &naming{dir: dir, failing: func() bool {
			if failRng.Intn(3) == 0 {
				atomic.AddInt64(&failures, 1)
				return true
			}
			return false
		}}}}
		every := time.Duration(rng.Intn(1000)+100) * time.Microsecond
		writer, err := rotation.NewWriter(rotation.Config{WritePath: path, TriggerStrategy: &sizes{limit: 1 << 40, every: every}, ArchiveStrategy: arch,
			RetainStrategy: &rotation.RetainByCount{MaxArchivesCount: 1 << 30}, PurgeStrategy: &rotation.PurgeByDelete{}})
		if err != nil {
			t.ViolateAsync("open", "can not open: %v", err)
			return
		}
		var expect []byte
		for j := 0; j < 200; j++ {
			buf := numbered(i, j, rng.Intn(100))
			got, err := writer.Write(buf)
			if err != nil || got != len(buf) {
				t.ViolateAsync("write-stumble", "write returns %d, %v after %d failures of archiving", got, err, atomic.LoadInt64(&failures))
			}
			expect = append(expect, buf...)
			if rng.Intn(5) == 0 {
				time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
			}
		}
		// the time comes also when nothing is written
		calls, waited := atomic.LoadInt64(&arch.calls), time.Now()
		for atomic.LoadInt64(&arch.calls) == calls {
			if time.Since(waited) > 30*time.Second {
				t.ViolateAsync("time-trigger", "nothing is archived for %v, the trigger is due every %v", time.Since(waited), every)
				break
			}
			t.Tick()
			time.Sleep(time.Millisecond)
		}
		writer.Close()
		archives, _ := filepath.Glob(filepath.Join(dir, "archive-*"))
		sort.Strings(archives)
		var all []byte
		for _, name := range append(archives, path) {
			content, _ := os.ReadFile(name)
			all = append(all, content...)
		}
		if !bytes.Equal(all, expect) {
			t.ViolateAsync("content-stumble", "%d bytes were written, the files hold %d others, archiving failed %d times", len(expect), len(all), failures)
		}
		t.Eval(fmt.Sprint("stumble", len(archives), failures > 0))
		t.Count("failures of archiving", int(failures))
		os.RemoveAll(dir)
	}
}

// limit sets the soft limit and returns the function that restores it
func limit(resource int, value uint64) (restore func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(resource, &old); err != nil {
		fmt.Println("nolimit", err)
		os.Exit(0)
	}
	if err := syscall.Setrlimit(resource, &syscall.Rlimit{Cur: value, Max: old.Max}); err != nil {
		fmt.Println("nolimit", err)
		os.Exit(0)
	}
	return func() { syscall.Setrlimit(resource, &old) }
}

// faultyProcess writes while now and then files can not be opened or can not grow
func faultyProcess(args []string) {
	loglog.Error = func(error) {}
	signal.Ignore(syscall.SIGXFSZ)
	dir := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	rng := rand.New(rand.NewSource(seed))
	path := filepath.Join(dir, "current.log")
	arch := &archiver{path: path, slow: func() {}, ArchiveStrategy: &rotation.ArchiveByMove{NamingStrategy: &naming{dir: dir}}}
	limitBytes := int64(rng.Intn(3000) + 1)
	cfg := rotation.Config{WritePath: path, TriggerStrategy: &sizes{limit: limitBytes}, ArchiveStrategy: arch,
		RetainStrategy: &rotation.RetainByCount{MaxArchivesCount: 1 << 30}, PurgeStrategy: &rotation.PurgeByDelete{}}
	if rng.Intn(3) == 0 {
		cfg.TriggerStrategy = &sizes{limit: limitBytes, every: time.Duration(rng.Intn(3000)+100) * time.Microsecond}
	}
	restore := limit(syscall.RLIMIT_NOFILE, 3)
	writer, err := rotation.NewWriter(cfg)
	restore()
	if err == nil || writer != nil {
		fmt.Println("problem open-error no file can be opened, but there is a writer", writer != nil, err)
		return
	}
	writer, err = rotation.NewWriter(cfg)
	if err != nil {
		fmt.Println("problem open", err)
		return
	}
	var expect []byte
	opened, grown, kept := 0, 0, 0
	for j := 0; j < 300; j++ {
		restore := func() {}
		fault := rng.Intn(4)
		switch fault {
		case 0:
			restore = limit(syscall.RLIMIT_NOFILE, 3)
		case 1:
			restore = limit(syscall.RLIMIT_FSIZE, uint64(rng.Intn(int(limitBytes)+1000)))
		}
		buf := numbered(int(seed%1000), j, rng.Intn(400))
		got, err := writer.Write(buf)
		restore()
		switch {
		case got < 0 || got > len(buf) || err == nil && got != len(buf):
			fmt.Printf("problem count write %d of %d bytes returns %d, %v\n", j, len(buf), got, err)
			return
		case err != nil && fault == 0:
			opened++
		case err != nil && fault == 1:
			grown++
			if got > 0 {
				kept++
			}
		case err != nil:
			fmt.Printf("problem recover write %d of %d bytes returns %d, %v although nothing is in the way any more\n", j, len(buf), got, err)
			return
		}
		expect = append(expect, buf[:got]...)
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
		}
		if rng.Intn(60) == 0 {
			writer.Close()
			if writer, err = rotation.NewWriter(cfg); err != nil {
				fmt.Println("problem open", err)
				return
			}
		}
	}
	writer.Close()
	archives, _ := filepath.Glob(filepath.Join(dir, "archive-*"))
	sort.Strings(archives)
	var all []byte
	for _, name := range append(archives, path) {
		content, _ := os.ReadFile(name)
		all = append(all, content...)
	}
	if !bytes.Equal(all, expect) {
		at := 0
		for at < len(all) && at < len(expect) && all[at] == expect[at] {
			at++
		}
		fmt.Printf("problem content %d bytes were written, the %d files hold %d, they differ at %d: %q instead of %q\n", len(expect), len(archives)+1, len(all), at, clip(all, at), clip(expect, at))
	}
	fmt.Println("done", opened, grown, kept, len(archives))
}

// faulty runs the history in a process of its own, because the limits are those of the process
func faulty(t *vk.T) {
	rng := t.Rng("faulty")
	exe, err := os.Executable()
	if err != nil {
		t.Fatal(err.Error())
	}
	for i := 0; i < t.N(32, 800) && !t.Violated(); i += 8 {
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			seed := rng.Int63n(1e12)
			wg.Add(1)
			go func() {
				defer wg.Done()
				dir := t.Scratch("faulty")
				defer os.RemoveAll(dir)
				cmd := exec.Command(exe, dir, fmt.Sprint(seed))
				cmd.Env = append(os.Environ(), "VK_MODE=faulty")
				out, err := cmd.CombinedOutput()
				done := false
				for _, line := range strings.Split(strings.TrimSpace(string(out)), "\n") {
					var opened, grown, kept, archives int
					if strings.HasPrefix(line, "problem ") {
						t.ViolateAsync("fault-"+strings.Fields(line)[1], "faulty seed %d: %s", seed, line)
						done = true
					} else if strings.HasPrefix(line, "nolimit") {
						t.Count("limits refused", 1)
						done = true
					} else if n, _ := fmt.Sscanf(line, "done %d %d %d %d", &opened, &grown, &kept, &archives); n == 4 {
						done = true
						t.Count("writes failed opening", opened)
						t.Count("writes failed growing", grown)
						t.Count("failed writes kept in part", kept)
						t.Eval(fmt.Sprint("faulty", archives, opened > 0, kept > 0))
					}
				}
				if !done {
					t.ViolateAsync("fault-crash", "faulty seed %d: process ended with %v: %.2000s", seed, err, out)
				}
			}()
		}
		wg.Wait()
		t.Tick()
	}
}

// ---------------------------------------------------------------- strategies

func archivesOf(rng *rand.Rand, n int) []rotation.Archive {
	list := make([]rotation.Archive, n)
	for i := range list {
		list[i] = rotation.Archive{Path: fmt.Sprint("p", i, rng.Intn(10)), Size: rng.Int63(), ArchivedAt: time.Unix(rng.Int63n(1e9), 0)}
	}
	return list
}

func strategies(t *vk.T) {
	rng := t.Rng("strategies")
	// retention
	for i := 0; i < t.N(3000, 30000); i++ {
		n, max := rng.Intn(30), rng.Intn(30)
		list := archivesOf(rng, n)
		before := append([]rotation.Archive{}, list...)
		strategy := &rotation.RetainByCount{MaxArchivesCount: max}
		purge := strategy.PurgeSet(list)
		want := 0
		if n > max {
			want = n - max
		}
		if len(purge) != want || (want > 0 && !reflect.DeepEqual(purge, before[:want])) || !reflect.DeepEqual(list, before) {
			t.ViolateAsync("retain", "of %d archives %d are kept, %d are purged", n, max, len(purge))
		}
		t.Eval(fmt.Sprint("retain", n, max))
	}
	// interval
	defer clock.ResetNow()
	for i := 0; i < t.N(5000, 100000); i++ {
		interval := []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 2 * time.Second, 7 * time.Second, time.Minute, time.Hour, 24 * time.Hour, 90 * time.Minute}[rng.Intn(9)]
		if rng.Intn(3) == 0 {
			interval = time.Duration(rng.Int63n(int64(time.Hour))) + time.Nanosecond
		}
		sec := rng.Int63n(1 << 32)
		if rng.Intn(2) == 0 {
			sec = sec / int64(time.Hour/time.Second) * int64(time.Hour/time.Second)
			sec += int64(rng.Intn(3)) - 1
		}
		if sec < 0 {
			sec = 0
		}
		now := time.Unix(sec, rng.Int63n(1e9))
		clock.Now = func() time.Time { return now }
		strategy := &rotation.TriggerByInterval{Interval: interval}
		left := strategy.TimeToTrigger()
		end := time.Duration(sec)*time.Second + left
		if left <= 0 || left > interval || end%interval != 0 {
			t.ViolateAsync("interval", "%v to the next trigger every %v at %v", left, interval, now)
		}
		if _, triggered, err := strategy.UpdateStat(nil, nil, nil); triggered || err != nil {
			t.ViolateAsync("interval-stat", "the interval trigger triggers on a write")
		}
		t.Eval(fmt.Sprint("interval", interval, sec%10))
	}
	clock.ResetNow()
	files(t)
	listings(t)
}

// files checks archiving and purging of files
func files(t *vk.T) {
	rng := t.Rng("files")
	for i := 0; i < t.N(150, 2000); i++ {
		dir := t.Scratch(fmt.Sprint("f", i))
		// purging removes exactly the set and reports what it can not remove
		var set []rotation.Archive
		var left []string
		missing := 0
		for j := rng.Intn(8); j > 0; j-- {
			name := filepath.Join(dir, fmt.Sprint("file", j))
			switch rng.Intn(4) {
			case 0:
				missing++
				set = append(set, rotation.Archive{Path: name})
			case 1:
				os.WriteFile(name, []byte(name), 0644)
				left = append(left, name)
			case 2:
				if rng.Intn(3) == 0 {
					// can not be removed
					os.MkdirAll(filepath.Join(name, "inner"), 0755)
					missing++
					left = append(left, name)
					set = append(set, rotation.Archive{Path: name})
				}
			default:
				os.WriteFile(name, []byte(name), 0644)
				set = append(set, rotation.Archive{Path: name})
			}
		}
		err := (&rotation.PurgeByDelete{}).Purge(set)
		if (err != nil) != (missing > 0) {
			t.ViolateAsync("purge-error", "purging with %d archives that can not be removed returns %v", missing, err)
		}
		now, _ := filepath.Glob(filepath.Join(dir, "*"))
		sort.Strings(left)
		sort.Strings(now)
		if strings.Join(now, " ") != strings.Join(left, " ") {
			t.ViolateAsync("purge", "purging leaves %v instead of %v", now, left)
		}
		t.Eval(fmt.Sprint("purge", len(set), missing))
		os.RemoveAll(dir)
		// archiving moves the file with its content
		dir = t.Scratch(fmt.Sprint("a", i))
		namer := &naming{dir: dir}
		path := filepath.Join(dir, "current")
		strategy := &rotation.ArchiveByMove{NamingStrategy: namer}
		var want []string
		for j := rng.Intn(5); j >= 0; j-- {
			there := rng.Intn(4) > 0
			content := numbered(i, j, rng.Intn(3000))
			if there {
				os.WriteFile(path, content, 0644)
			}
			archives, err := strategy.Archive(path)
			if err != nil {
				t.ViolateAsync("archive-error", "archiving returns %v", err)
			}
			if !there {
				continue
			}
			want = append(want, string(content))
			if _, err := os.Stat(path); !os.IsNotExist(err) {
				t.ViolateAsync("archive-left", "the archived file is still there")
			}
			var got []string
			for _, archive := range archives {
				c, _ := os.ReadFile(archive.Path)
				got = append(got, string(c))
			}
			if !reflect.DeepEqual(got, want) {
				t.ViolateAsync("archive", "%d archives are listed with other contents than the %d files archived", len(got), len(want))
			}
		}
		namer.failing = func() bool { return true }
		os.WriteFile(path, []byte("x"), 0644)
		if _, err := strategy.Archive(path); err == nil {
			t.ViolateAsync("archive-no-name", "archiving without a name for the archive succeeds")
		}
		if c, _ := os.ReadFile(path); string(c) != "x" {
			t.ViolateAsync("archive-no-name-lost", "the file that could not be archived is gone")
		}
		t.Eval(fmt.Sprint("archive", len(want)))
		t.Count("archived files", len(want))
		os.RemoveAll(dir)
	}
}

var patterns = []string{"test-2006-01-02T15-04-05.log", "test-2006.log", "2006-01-02.000.txt", "test-20060102-150405.log", "02-01-2006T15-04-05.log", "at Jan _2 2006 15h04m05s"}

// listings checks the naming strategies
func listings(t *vk.T) {
	rng := t.Rng("listings")
	defer clock.ResetNow()
	for i := 0; i < t.N(200, 3000); i++ {
		dir := t.Scratch(fmt.Sprint("l", i))
		pattern := patterns[rng.Intn(len(patterns))]
		type entry struct {
			name string
			at   time.Time
			size int64
		}
		var want []entry
		seen := map[string]bool{}
		for j := rng.Intn(12); j > 0; j-- {
			at := time.Unix(rng.Int63n(4e9), rng.Int63n(1000)*1e6).UTC()
			if pattern == "2006-01-02.000.txt" {
				at = at.Truncate(24 * time.Hour).Add(time.Duration(rng.Intn(1000)) * time.Millisecond)
			} else if pattern == "test-2006.log" {
				at = time.Date(at.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
			} else {
				at = at.Truncate(time.Second)
			}
			name := at.Format(pattern)
			if seen[name] {
				continue
			}
			seen[name] = true
			size := rng.Intn(100)
			os.WriteFile(filepath.Join(dir, name), make([]byte, size), 0644)
			want = append(want, entry{filepath.Join(dir, name), at, int64(size)})
		}
		for _, other := range []string{"other", "test-abcd.log", "test-2006.log.gz", "test-.log", "xtest-2016.log", "test-2016-13-45T15-04-05.log", "2016-01-02.txt", "test-20160102-996060.log"} {
			if rng.Intn(2) == 0 {
				os.WriteFile(filepath.Join(dir, other), []byte("x"), 0644)
			}
		}
		sort.Slice(want, func(a, b int) bool { return want[a].at.Before(want[b].at) })
		namer := &rotation.NameByTime{Directory: dir, Pattern: pattern}
		got, err := namer.ListFiles()
		if err != nil {
			t.ViolateAsync("list-error", "listing returns %v", err)
		}
		same := len(got) == len(want)
		for j := 0; same && j < len(got); j++ {
			same = got[j].Path == want[j].name && got[j].ArchivedAt.Equal(want[j].at) && got[j].Size == want[j].size
		}
		if !same {
			t.ViolateAsync("list", "%s lists %v instead of %v", pattern, got, want)
		}
		// the next name is the formatted time and is listed afterwards as that time
		now := time.Unix(rng.Int63n(4e9), rng.Int63n(1e9))
		clock.Now = func() time.Time { return now }
		next, err := namer.NextFile()
		if err != nil || next != filepath.Join(dir, now.Format(pattern)) {
			t.ViolateAsync("next", "%s gives the name %s, %v at %v", pattern, next, err, now)
		}
		clock.ResetNow()
		t.Eval(fmt.Sprint("list", pattern, len(want)))
		t.Count("listings", 1)
		// by index
		indexed := &rotation.NameByIndex{Directory: filepath.Join(dir, "idx"), Pattern: []string{"test-%d.log", "test-%04d.log", "test-%d.log.old"}[rng.Intn(3)], StartIndex: rng.Intn(5)}
		paths, err := indexed.ListFiles()
		if err != nil || len(paths) != 0 {
			t.ViolateAsync("index-missing", "listing of a directory that is not there returns %v, %v", paths, err)
		}
		os.Mkdir(indexed.Directory, 0755)
		indices := map[string]int{}
		for j := rng.Intn(8); j > 0; j-- {
			index := rng.Intn(20000)
			if rng.Intn(2) == 0 {
				index = rng.Intn(30)
			}
			if indexed.Pattern == "test-%04d.log" {
				// as many digits as the pattern has
				index %= 10000
			}
			path := filepath.Join(indexed.Directory, fmt.Sprintf(indexed.Pattern, index))
			os.WriteFile(path, nil, 0644)
			indices[path] = index
		}
		wantPaths := []string{}
		for path := range indices {
			wantPaths = append(wantPaths, path)
		}
		sort.Slice(wantPaths, func(a, b int) bool { return indices[wantPaths[a]] < indices[wantPaths[b]] })
		for _, other := range []string{"test-a.log", "test-", "other-1.log", "test-.log", "test", "test-12.log.gz", "test-3.logs", "xtest-4.log", "test-5"} {
			if rng.Intn(2) == 0 {
				os.WriteFile(filepath.Join(indexed.Directory, other), nil, 0644)
			}
		}
		paths, err = indexed.ListFiles()
		ok := err == nil && len(paths) == len(wantPaths)
		for j := range paths {
			ok = ok && paths[j] == wantPaths[j]
		}
		if !ok {
			t.ViolateAsync("index", "listing by index returns %v, %v instead of %v", paths, err, wantPaths)
		}
		if open := hx.OpenFiles(dir); len(open) > 0 {
			t.ViolateAsync("left-open", "listing leaves open: %v", open)
		}
		t.Eval(fmt.Sprint("index", len(wantPaths)))
		os.RemoveAll(dir)
	}
}

// sameName: two files are archived while the naming strategy gives the same name
func sameName(t *vk.T) {
	dir := t.Scratch("same")
	path := filepath.Join(dir, "current.log")
	mover := &rotation.ArchiveByMove{NamingStrategy: &rotation.NameByTime{Directory: dir, Pattern: "same-.log"}}
	var want []byte
	for i := 0; i < 3; i++ {
		content := []byte(fmt.Sprintf("message %d\n", i))
		if err := os.WriteFile(path, content, 0644); err != nil {
			t.Fatal(err.Error())
		}
		if _, err := mover.Archive(path); err != nil {
			// refused, it stays where it is
			os.Remove(path)
			continue
		}
		want = append(want, content...)
	}
	var got []byte
	entries, _ := os.ReadDir(dir)
	for _, entry := range entries {
		content, _ := os.ReadFile(filepath.Join(dir, entry.Name()))
		got = append(got, content...)
	}
	if len(got) != len(want) {
		t.Violate("archive-overwritten", "of three files archived under one name %q is left", got)
	}
	t.Eval("same name")
}

func run(t *vk.T) {
	sameName(t)
	loglog.Error = func(error) {}
	strategies(t)
	stumble(t)
	writers(t)
	faulty(t)
}

func main() {
	vk.Main(vk.Check{
		ID:            "C40",
		Rule:          "Histories of numbered writes to the rotating writer, with size, interval and mixed triggers, random delays inside of archiving, reopening and retention limits; purged archives are kept aside by hard links, and afterwards the archives from oldest to newest and the current file are compared byte by byte with what was written. Archiving that fails at times must not disturb the writing. In processes of their own, now and then no file can be opened or grown beyond a limit: exactly what the writes report as written must be there, and writing goes on afterwards. The strategies are run on generated lists, times and directories and compared with independent computations.",
		Assumptions:   []string{"in the write histories the naming strategy gives every archive a new name that sorts after the older ones (what happens otherwise is a known finding)", "one goroutine writes at a time, as documented in the writer"},
		MinNontrivial: 10,
		Modes:         map[string]func(args []string){"faulty": faultyProcess},
		Run:           run,
	})
}
