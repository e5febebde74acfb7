package fw

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// Journal is a small shared memory area (running case index, progress counter) plus an append only failure log. It
// survives the death of the worker.
type Journal struct {
	mem  []byte
	fail *os.File
}

const journalSize = 4096

func OpenJournal(path string) (*Journal, error) {
	if path == "" {
		return &Journal{mem: make([]byte, journalSize)}, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err = f.Truncate(journalSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	ff, err := os.OpenFile(path+".fail", os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
	if err != nil {
		return nil, err
	}
	return &Journal{mem: mem, fail: ff}, nil
}

func (j *Journal) word(i int) *uint64 { return (*uint64)(unsafe.Pointer(&j.mem[i*8])) }

func (j *Journal) Begin(i int64) {
	atomic.StoreUint64(j.word(0), uint64(i)+1)
	atomic.AddUint64(j.word(1), 1)
	atomic.StoreUint64(j.word(2), 1)
}

func (j *Journal) End() {
	atomic.AddUint64(j.word(1), 1)
	atomic.StoreUint64(j.word(2), 0)
}
func (j *Journal) Touch() { atomic.AddUint64(j.word(1), 1) }

func (j *Journal) Report(f Failure) {
	if j.fail != nil {
		b, _ := json.Marshal(f)
		_, _ = j.fail.Write(append(b, '\n'))
	}
}

// ReadJournal returns running case index+1 (0 = none started), the progress counter and if a case was running
func ReadJournal(path string) (cur, progress uint64, running bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 24 {
		return 0, 0, false
	}
	return binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:]) == 1
}
