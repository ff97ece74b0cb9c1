// Package ljx is the harness for the rolling log file: a reference model of
// its documented behaviour, and the machinery to compare a directory with it.
package ljx

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/v2pro/plz/countlog/output/lumberjack"

	shimos "verif/shim/os"
	"verif/vsched"
)

// Max is the size limit used: one megabyte, the smallest possible.
const Max = 1 << 20

// DefaultFormat of the timestamps in backup names.
const DefaultFormat = "2006-01-02T15-04-05.000"

// Old is a backup that is there before the logger starts.
type Old struct {
	AgeHours int
	Raw, Gz  bool
}

// Setup is a logger configuration and the initial directory.
type Setup struct {
	File     string // relative path of the log file
	Fmt      string
	Backups  int
	Age      int // days
	Compress bool
	Local    bool
	Initial  string // "" none, "small", "near" (limit - 100 bytes), "full", "over"
	Mode     os.FileMode
	Umask    int // 0: 022, negative: 0
	Owner    int // of the initial files: 0 is the own one
	Olds     []Old
	Foreign  bool
}

func (s Setup) String() string {
	return fmt.Sprintf("file=%s fmt=%q backups=%d age=%d compress=%v local=%v initial=%q mode=%o umask=%o owner=%d olds=%v foreign=%v",
		s.File, s.Fmt, s.Backups, s.Age, s.Compress, s.Local, s.Initial, s.Mode, s.umask(), s.Owner, s.Olds, s.Foreign)
}

func (s Setup) umask() int {
	switch {
	case s.Umask == 0:
		return 022
	case s.Umask < 0:
		return 0
	}
	return s.Umask
}

func (s Setup) format() string {
	if s.Fmt == "" {
		return DefaultFormat
	}
	return s.Fmt
}

// Backup of the model.
type Backup struct {
	TS      time.Time // rotation time
	Stamp   string    // as formatted
	Content string
	Raw, Gz bool
	Seq     int
	Mode    os.FileMode
	Owner   int
}

// World is one run: the real directory and the model.
type World struct {
	Setup
	Dir     string
	Path    string
	Log     *lumberjack.Logger
	Cur     string // model: content of the current file
	CurOK   bool   // it exists
	Open    bool
	Baks    []*Backup
	foreign map[string]string
	nrec    int
	seq     int
	mode    os.FileMode // model: of the current file
	owner   int
	noMill  bool
}

var serial int

// Record makes the content of record id with n bytes.
func Record(id string, n int) string {
	s := "<" + id + ":"
	if n < len(s)+2 {
		n = len(s) + 2
	}
	return s + strings.Repeat(".", n-len(s)-2) + ">\n"
}

// New creates the directory and its initial content; must be called inside an execution.
func New(scratch string, s Setup) *World {
	serial++
	w := &World{Setup: s, Dir: filepath.Join(scratch, fmt.Sprint("lj", serial))}
	if err := os.MkdirAll(w.Dir, 0755); err != nil {
		panic(err)
	}
	w.Path = filepath.Join(w.Dir, s.File)
	w.foreign = map[string]string{}
	dir := filepath.Dir(w.Path)
	base := filepath.Base(w.Path)
	ext := filepath.Ext(base)
	stem := base[:len(base)-len(ext)]
	init := func(n int) string {
		r := Record("init", 30)
		if n > len(r) {
			return r + strings.Repeat("\x00", n-len(r))
		}
		return r
	}
	if s.Initial != "" || len(s.Olds) > 0 || s.Foreign {
		os.MkdirAll(dir, 0755)
	}
	syscall.Umask(s.umask())
	put := func(name, content string, mode os.FileMode) {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0600)
		if err != nil {
			panic(err)
		}
		head := strings.TrimRight(content, "\x00")
		f.WriteString(head)
		f.Truncate(int64(len(content))) // sparse
		f.Chmod(mode)
		if w.Owner != 0 && f.Chown(w.Owner, w.Owner+1) != nil {
			w.Owner = 0 // not allowed here
		}
		f.Close()
	}
	w.mode = 0644 &^ os.FileMode(s.umask())
	if s.Initial != "" {
		n := map[string]int{"small": 30, "near": Max - 100, "full": Max, "over": Max + 500}[s.Initial]
		w.Cur, w.CurOK = init(n), true
		w.mode = 0644
		if s.Mode != 0 {
			w.mode = s.Mode
		}
		put(w.Path, w.Cur, w.mode)
		w.owner = w.Owner
	}
	now := vsched.Epoch()
	for i, o := range s.Olds {
		t := now.Add(-time.Duration(o.AgeHours) * time.Hour)
		b := &Backup{TS: t, Stamp: w.stamp(t), Content: Record(fmt.Sprint("old", i), 40), Raw: o.Raw, Gz: o.Gz,
			Mode: []os.FileMode{0644, 0664, 0600, 0666, 0640}[i%5]}
		p, err := w.parse(b.Stamp)
		if err != nil {
			panic(err)
		}
		b.TS = p
		name := filepath.Join(dir, stem+"-"+b.Stamp+ext)
		if o.Raw {
			put(name, b.Content, b.Mode)
		}
		if o.Gz {
			var buf bytes.Buffer
			gz := gzip.NewWriter(&buf)
			gz.Write([]byte(b.Content))
			gz.Close()
			put(name+".gz", buf.String(), b.Mode)
		}
		b.Owner = w.Owner
		w.Baks = append(w.Baks, b)
	}
	if s.Foreign {
		st := now.Add(-99 * 24 * time.Hour).UTC().Format(s.format())
		for _, n := range []string{
			stem + "-" + ext, stem + "-notatime" + ext, stem + "-" + st + ".other", "x" + stem + "-" + st + ext,
			stem + "b-" + st + ext, stem + "-b-" + st + ext, stem + st + ext, stem + "-" + st + ext + ".gz.bak", stem + "-" + st + ext + ".zip",
			stem + "-" + st[:len(st)-1] + ext, "unrelated", stem + "-" + st + "x" + ext, stem + "-x" + st + ext, stem + "-" + st + "_x" + ext, strings.ToUpper(stem) + "-" + st + ext} {
			c := "foreign " + n
			if n == stem+"-"+st+ext {
				continue // no letters in the name: a backup
			}
			put(filepath.Join(dir, n), c, 0644)
			w.foreign[n] = c
		}
		if ov := overlap(stem, ext); ov != "" {
			put(filepath.Join(dir, ov), "foreign "+ov, 0644)
			w.foreign[ov] = "foreign " + ov
		}
		d := stem + "-" + now.Add(-98*24*time.Hour).UTC().Format(s.format()) + ext
		os.Mkdir(filepath.Join(dir, d), 0755)
		w.foreign[d] = "(dir)"
	}
	shimos.Root = w.Dir
	shimos.Hook = nil
	shimos.After = nil
	shimos.Escapes = nil
	w.NewLogger()
	return w
}

// overlap is a name that has prefix and extension of a backup, but they overlap.
func overlap(stem, ext string) string {
	prefix := stem + "-"
	for n := len(ext) - 1; n > 0; n-- {
		if strings.HasSuffix(prefix, ext[:n]) {
			return prefix + ext[n:]
		}
	}
	if ext != "" && strings.HasSuffix(prefix, ext) {
		return prefix
	}
	return ""
}

// Remove deletes the directory.
func (w *World) Remove() {
	if w != nil && strings.Contains(w.Dir, "/lj") {
		os.RemoveAll(w.Dir)
	}
}

// NewLogger replaces the logger, as after a restart of the process.
func (w *World) NewLogger() {
	w.Log = &lumberjack.Logger{Filename: w.Path, MaxSize: 1, MaxAge: w.Age, MaxBackups: w.Backups, LocalTime: w.Local,
		Compress: w.Compress, BackupTimeFormat: w.Fmt}
	w.Open = false
}

func (w *World) stamp(t time.Time) string {
	if w.Local {
		return t.Local().Format(w.format())
	}
	return t.UTC().Format(w.format())
}

func (w *World) parse(s string) (time.Time, error) {
	if w.Local {
		return time.ParseInLocation(w.format(), s, time.Local)
	}
	return time.Parse(w.format(), s)
}

// ---- the model's operations ----

func (w *World) modelRotate(now time.Time) {
	if w.CurOK {
		st := w.stamp(now)
		ts, err := w.parse(st)
		if err != nil {
			panic(err)
		}
		w.seq++
		w.Baks = append(w.Baks, &Backup{TS: ts, Stamp: st, Content: w.Cur, Raw: true, Seq: w.seq, Mode: w.mode, Owner: w.owner})
	}
	w.Cur, w.CurOK, w.Open = "", true, true
	w.modelMill(now)
}

func (w *World) modelMill(now time.Time) {
	if w.Backups == 0 && w.Age == 0 && !w.Compress {
		return
	}
	// backups of the same time rank equally: accept the choice made
	vsched.Quiesce()
	_, real, _, _ := w.ReadDir()
	taken := map[string]bool{}
	present := func(b *Backup) int {
		for key, es := range real {
			if !taken[key] && stampOf(key, b.Stamp) && es[0].Content == b.Content {
				taken[key] = true
				return 1
			}
		}
		return 0
	}
	there := map[*Backup]int{}
	for i, b := range w.Baks {
		for j, c := range w.Baks {
			if i != j && b.TS.Equal(c.TS) {
				there[b] = present(b)
				break
			}
		}
	}
	sort.SliceStable(w.Baks, func(i, j int) bool {
		if !w.Baks[i].TS.Equal(w.Baks[j].TS) {
			return w.Baks[i].TS.After(w.Baks[j].TS)
		}
		if there[w.Baks[i]] != there[w.Baks[j]] {
			return there[w.Baks[i]] > there[w.Baks[j]]
		}
		return w.Baks[i].Seq > w.Baks[j].Seq
	})
	var keep []*Backup
	cutoff := time.Time{} // limits beyond the range of a duration are never reached
	if w.Age < 100000 {
		cutoff = now.Add(-time.Duration(w.Age) * 24 * time.Hour)
	}
	for i, b := range w.Baks {
		if w.Backups > 0 && i >= w.Backups {
			continue
		}
		if w.Age > 0 && b.TS.Before(cutoff) {
			continue
		}
		if w.Compress && b.Raw {
			b.Raw, b.Gz = false, true
		}
		keep = append(keep, b)
	}
	w.Baks = keep
}

// Write performs one write on the logger and the model.
func (w *World) Write(n int) string {
	w.nrec++
	rec := Record(fmt.Sprint("r", w.nrec), n)
	if n > Max {
		rec = strings.Repeat("X", n)
	}
	buf := []byte(rec)
	got, err := w.Log.Write(buf)
	if string(buf) != rec {
		return "Write changed the caller's buffer"
	}
	now := vsched.PeekNow()
	if len(rec) > Max {
		if err == nil || got != 0 {
			return fmt.Sprintf("a write of %d bytes, more than the limit, returned (%d, %v)", len(rec), got, err)
		}
		return ""
	}
	if err != nil || got != len(rec) {
		return fmt.Sprintf("write of %d bytes returned (%d, %v)", len(rec), got, err)
	}
	if !w.Open {
		w.modelMill(now)
		switch {
		case !w.CurOK:
			w.Cur, w.CurOK, w.Open = "", true, true
		case len(w.Cur)+len(rec) >= Max:
			w.modelRotate(now)
		default:
			w.Open = true
		}
	}
	if len(w.Cur)+len(rec) > Max {
		w.modelRotate(now)
	}
	w.Cur += rec
	return ""
}

// Fill is the number of bytes that makes the open file exactly full.
func (w *World) Fill() int {
	if !w.Open || Max-len(w.Cur) < 20 {
		return 25
	}
	return Max - len(w.Cur)
}

func (w *World) Rotate() string {
	if err := w.Log.Rotate(); err != nil {
		return fmt.Sprintf("Rotate: %v", err)
	}
	w.modelRotate(vsched.PeekNow())
	return ""
}

func (w *World) Close() string {
	w.Open = false
	if err := w.Log.Close(); err != nil {
		return fmt.Sprintf("Close: %v", err)
	}
	return ""
}

// ---- the directory ----

// Entry is one file found.
type Entry struct {
	Name    string
	Content string // uncompressed
	Gz      bool
	Mode    os.FileMode
	Owner   int
}

// ReadDir classifies the files of the log directory.
func (w *World) ReadDir() (cur *Entry, baks map[string][]*Entry, others map[string]string, err string) {
	dir := filepath.Dir(w.Path)
	base := filepath.Base(w.Path)
	ext := filepath.Ext(base)
	stem := base[:len(base)-len(ext)]
	baks = map[string][]*Entry{}
	others = map[string]string{}
	des, e := os.ReadDir(dir)
	if e != nil && !os.IsNotExist(e) {
		return nil, nil, nil, e.Error()
	}
	for _, de := range des {
		n := de.Name()
		if de.IsDir() {
			others[n] = "(dir)"
			continue
		}
		b, e := os.ReadFile(filepath.Join(dir, n))
		if e != nil {
			return nil, nil, nil, e.Error()
		}
		fi, _ := de.Info()
		ent := &Entry{Name: n, Content: string(b), Mode: fi.Mode().Perm()}
		if st, ok := fi.Sys().(*syscall.Stat_t); ok && int(st.Uid) != os.Getuid() {
			ent.Owner = int(st.Uid)
			if st.Gid != st.Uid+1 {
				ent.Owner = -int(st.Gid)
			}
		}
		if n == base {
			cur = ent
			continue
		}
		if _, isForeign := w.foreign[n]; isForeign {
			others[n] = string(b)
			continue
		}
		rest := n
		if strings.HasSuffix(rest, ext+".gz") {
			rest = rest[:len(rest)-len(ext)-3]
			ent.Gz = true
		} else if strings.HasSuffix(rest, ext) {
			rest = rest[:len(rest)-len(ext)]
		} else {
			others[n] = string(b)
			continue
		}
		if !strings.HasPrefix(rest, stem+"-") {
			others[n] = string(b)
			continue
		}
		if ent.Gz {
			zr, e := gzip.NewReader(bytes.NewReader(b))
			var out []byte
			if e == nil {
				out, e = io.ReadAll(zr)
			}
			if e != nil {
				ent.Content = "(corrupt gzip: " + e.Error() + ")"
			} else {
				ent.Content = string(out)
			}
		}
		key := rest[len(stem)+1:]
		baks[key] = append(baks[key], ent)
	}
	return
}

// Check compares the directory with the model.
func (w *World) Check() string {
	if len(shimos.Escapes) > 0 {
		return "file operation outside the log directory: " + strings.Join(shimos.Escapes, ", ")
	}
	cur, baks, others, e := w.ReadDir()
	if e != "" {
		return e
	}
	if (cur != nil) != w.CurOK {
		return fmt.Sprintf("current log file exists: %v, expected %v", cur != nil, w.CurOK)
	}
	if cur != nil && cur.Content != w.Cur {
		return fmt.Sprintf("current log file holds %s, expected %s", Brief(cur.Content), Brief(w.Cur))
	}
	if cur != nil && cur.Mode != w.mode {
		return fmt.Sprintf("current log file has mode %o, expected %o", cur.Mode, w.mode)
	}
	if cur != nil && cur.Owner != w.owner {
		return fmt.Sprintf("current log file belongs to %d, expected %d (0: the process)", cur.Owner, w.owner)
	}
	for n, c := range w.foreign {
		if others[n] != c {
			return fmt.Sprintf("file %s, not a backup, was removed or changed", n)
		}
	}
	for n := range others {
		if _, ok := w.foreign[n]; !ok {
			return fmt.Sprintf("unexpected file %s", n)
		}
	}
	// backups: match every expected one
	used := map[string]bool{}
	for _, b := range w.Baks {
		found := ""
		for key, es := range baks {
			if used[key] || !stampOf(key, b.Stamp) {
				continue
			}
			raw, gz := false, false
			ok := true
			for _, en := range es {
				if en.Content != b.Content {
					ok = false
				}
				if en.Gz {
					gz = true
				} else {
					raw = true
				}
			}
			if ok && raw == b.Raw && gz == b.Gz {
				found = key
				for _, en := range es {
					if en.Mode != b.Mode || en.Owner != b.Owner {
						return fmt.Sprintf("backup %s has mode %o and owner %d, expected %o and %d", en.Name, en.Mode, en.Owner, b.Mode, b.Owner)
					}
				}
				break
			}
		}
		if found == "" {
			return fmt.Sprintf("no backup of %s with %s (plain %v, gzip %v); backups found: %s", b.Stamp, Brief(b.Content), b.Raw, b.Gz, list(baks))
		}
		used[found] = true
	}
	for key := range baks {
		if !used[key] {
			return fmt.Sprintf("unexpected backup %s (%d expected); found: %s", key, len(w.Baks), list(baks))
		}
	}
	return ""
}

// stampOf: key is stamp, or stamp and something to tell several backups of one time apart.
func stampOf(key, stamp string) bool {
	return key == stamp || (strings.HasPrefix(key, stamp) && !strings.ContainsRune("0123456789", rune(key[len(stamp)])))
}

func list(baks map[string][]*Entry) string {
	var r []string
	for k, es := range baks {
		s := k
		for _, e := range es {
			s += fmt.Sprintf("(gz=%v %s)", e.Gz, Brief(e.Content))
		}
		r = append(r, s)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// Brief names the records of a content.
func Brief(c string) string {
	var ids []string
	for i := 0; i < len(c); {
		j := strings.IndexByte(c[i:], '<')
		if j < 0 {
			break
		}
		i += j
		k := strings.IndexByte(c[i:], ':')
		if k < 0 || k > 12 {
			break
		}
		ids = append(ids, c[i+1:i+k])
		i += k
	}
	return fmt.Sprintf("%d bytes %v", len(c), ids)
}

// Quiesce lets the clean-up goroutine finish.
func Quiesce() { vsched.Quiesce() }

// CheckForeign compares the other files of the directory with what was put there.
func (w *World) CheckForeign(others map[string]string) string {
	for n, c := range w.foreign {
		if others[n] != c {
			return fmt.Sprintf("file %s, not a backup, was removed or changed", n)
		}
	}
	for n := range others {
		if _, ok := w.foreign[n]; !ok {
			return fmt.Sprintf("unexpected file %s", n)
		}
	}
	return ""
}
