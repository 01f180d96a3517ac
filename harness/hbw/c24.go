package hbw

import (
	"math"
	"os"
	"path/filepath"

	"github.com/performancecopilot/speed/v4/bytewriter"
	"verif.local/harness/sym"
)

// C24_write_raw: Write of any data at any offset.
func C24_write_raw() {
	n := sym.Choose("n", 5)
	k := sym.Choose("k", 4)
	before := sym.Bytes("before", n)
	data := sym.Bytes("data", k)
	off := sym.Int("off")
	buf := append([]byte{}, before...)
	w := bytewriter.NewByteWriterSlice(buf)
	var end int
	var err error
	panicked, _ := sym.Catch(func() { end, err = w.Write(data, off) })
	sym.Assert(!panicked, "Write panics instead of returning an error")
	if panicked {
		return
	}
	fits := off >= 0 && off <= n-k
	sym.Assert((err == nil) == fits, "Write fails exactly when the data does not fit")
	if err != nil {
		sym.Assert(sym.EqBytes(buf, before), "a failed Write changed the buffer")
		return
	}
	sym.Assert(end == off+k, "Write returns the offset after the data")
	for i := 0; i < n; i++ {
		if i >= off && i < off+k {
			sym.Assert(buf[i] == data[i-off], "Write stores the data at the offset")
		} else {
			sym.Assert(buf[i] == before[i], "Write changed a byte outside the data")
		}
	}
	sym.Observe("end", end, buf)
}

// le is the little endian encoding of the low n bytes of v.
func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

// checkWrite compares the outcome of one write with the specification: it
// fails exactly when data does not fit at off, and touches nothing else.
func checkWrite(before, after, data []byte, off, end int, failed bool) {
	n, k := len(before), len(data)
	fits := off >= 0 && off <= n-k
	sym.Assert(failed == !fits, "a typed write fails exactly when the value does not fit")
	if failed {
		sym.Assert(sym.EqBytes(before, after), "a failed write changed the buffer")
		return
	}
	sym.Assert(end == off+k, "a write returns the offset after the value")
	for i := 0; i < n; i++ {
		if i >= off && i < off+k {
			sym.Assert(after[i] == data[i-off], "a write stores the little endian bytes of the value")
		} else {
			sym.Assert(after[i] == before[i], "a write changed a byte outside the value")
		}
	}
}

// C24_write_typed: every typed writer with any value, at any 64-bit offset,
// into any buffer of 0 to 17 bytes (boundary sizes), plain and Must forms.
func C24_write_typed() {
	n := []int{0, 3, 4, 7, 8, 9, 17}[sym.Choose("n", 7)]
	before := sym.Bytes("before", n)
	off := sym.Int("off")
	buf := append([]byte{}, before...)
	w := bytewriter.NewByteWriterSlice(buf)
	sym.Assert(w.Len() == n, "Len is the size of the buffer")
	must := sym.Choose("must", 2) == 1
	var end int
	var err error
	var data []byte
	panicked, _ := sym.Catch(func() {
		switch sym.Choose("kind", 8) {
		case 0:
			v := sym.Int32("v")
			data = le(uint64(uint32(v)), 4)
			if must {
				end = w.MustWriteInt32(v, off)
			} else {
				end, err = w.WriteInt32(v, off)
			}
		case 1:
			v := sym.Uint32("v")
			data = le(uint64(v), 4)
			if must {
				end = w.MustWriteUint32(v, off)
			} else {
				end, err = w.WriteUint32(v, off)
			}
		case 2:
			v := sym.Int64("v")
			data = le(uint64(v), 8)
			if must {
				end = w.MustWriteInt64(v, off)
			} else {
				end, err = w.WriteInt64(v, off)
			}
		case 3:
			v := sym.Uint64("v")
			data = le(v, 8)
			if must {
				end = w.MustWriteUint64(v, off)
			} else {
				end, err = w.WriteUint64(v, off)
			}
		case 4:
			v := sym.Uint32("v")
			f := math.Float32frombits(v)
			sym.Assume(f == f)
			data = le(uint64(v), 4)
			if must {
				end = w.MustWriteFloat32(f, off)
			} else {
				end, err = w.WriteFloat32(f, off)
			}
		case 5:
			v := sym.Uint64("v")
			f := math.Float64frombits(v)
			sym.Assume(f == f)
			data = le(v, 8)
			if must {
				end = w.MustWriteFloat64(f, off)
			} else {
				end, err = w.WriteFloat64(f, off)
			}
		case 6:
			s := sym.String("s", sym.Choose("len", 5))
			data = []byte(s)
			if must {
				end = w.MustWriteString(s, off)
			} else {
				end, err = w.WriteString(s, off)
			}
		case 7:
			b := sym.Bytes("b", 1+sym.Choose("len", 4))
			data = b
			if must {
				end = w.MustWrite(b, off)
			} else {
				end, err = w.Write(b, off)
			}
		}
	})
	if !must {
		sym.Assert(!panicked, "a write panics instead of returning an error")
	}
	checkWrite(before, w.Bytes(), data, off, end, panicked || err != nil)
}

// C24_write_val: WriteVal and MustWriteVal with any value of each metric value
// type give the same bytes as the typed writers; buffer of 12 bytes, any offset.
func C24_write_val() {
	const n = 12
	before := sym.Bytes("before", n)
	off := sym.Int("off")
	w := bytewriter.NewByteWriterSlice(append([]byte{}, before...))
	var val interface{}
	var data []byte
	switch sym.Choose("kind", 7) {
	case 0:
		v := sym.Int32("v")
		val, data = v, le(uint64(uint32(v)), 4)
	case 1:
		v := sym.Uint32("v")
		val, data = v, le(uint64(v), 4)
	case 2:
		v := sym.Int64("v")
		val, data = v, le(uint64(v), 8)
	case 3:
		v := sym.Uint64("v")
		val, data = v, le(v, 8)
	case 4:
		v := sym.Uint32("v")
		f := math.Float32frombits(v)
		sym.Assume(f == f)
		val, data = f, le(uint64(v), 4)
	case 5:
		v := sym.Uint64("v")
		f := math.Float64frombits(v)
		sym.Assume(f == f)
		val, data = f, le(v, 8)
	case 6:
		s := sym.String("s", sym.Choose("len", 4))
		val, data = s, []byte(s)
	}
	must := sym.Choose("must", 2) == 1
	var end int
	var err error
	panicked, _ := sym.Catch(func() {
		if must {
			end = w.MustWriteVal(val, off)
		} else {
			end, err = w.WriteVal(val, off)
		}
	})
	if !must {
		sym.Assert(!panicked, "WriteVal panics instead of returning an error")
	}
	checkWrite(before, w.Bytes(), data, off, end, panicked || err != nil)
}

// C24_mapped: a writer over a mapped file of 1 to 6 bytes: the file has
// exactly the requested size, starts zeroed whatever was there before, and
// every accepted write (any data up to 3 bytes, any offset) is in it, while
// mapped and after Unmap; Unmap(true) removes it.
func C24_mapped() {
	n := 1 + sym.Choose("n", 6)
	dir := filepath.Join(os.TempDir(), "c24")
	loc := filepath.Join(dir, "f")
	if sym.Choose("old", 2) == 1 {
		sym.Assert(os.MkdirAll(dir, 0755) == nil, "mkdir")
		old := sym.Bytes("olddata", 8)
		sym.Assert(os.WriteFile(loc, old, 0644) == nil, "old file")
	}
	w, err := bytewriter.NewMemoryMappedWriter(loc, n)
	sym.Assert(err == nil, "a mapped writer can be created")
	if err != nil {
		return
	}
	got, err := os.ReadFile(loc)
	sym.Assert(err == nil && len(got) == n && w.Len() == n, "the file has the requested size")
	sym.Assert(sym.EqBytes(got, make([]byte, n)), "the file starts zeroed")
	data := sym.Bytes("data", sym.Choose("k", 4))
	off := sym.Int("off")
	end, werr := w.Write(data, off)
	got, err = os.ReadFile(loc)
	sym.Assert(err == nil && len(got) == n, "the file keeps its size")
	checkWrite(make([]byte, n), got, data, off, end, werr != nil)
	rm := sym.Choose("remove", 2) == 1
	sym.Assert(w.Unmap(rm) == nil, "Unmap succeeds")
	after, err := os.ReadFile(loc)
	if rm {
		sym.Assert(os.IsNotExist(err), "Unmap(true) removes the file")
	} else {
		sym.Assert(err == nil && sym.EqBytes(after, got), "Unmap(false) keeps the file and its content")
	}
}

// C24_large: Write, WriteString and WriteVal of 0, 100, 4097 or 70000 bytes
// (the first and the last one arbitrary) into a buffer of 70001 bytes at
// either end of it, at the offset before and at the one after, and at an
// arbitrary one.
func C24_large() {
	const n = 70001
	k := []int{0, 100, 4097, 70000}[sym.Choose("k", 4)]
	data := make([]byte, k)
	for i := range data {
		data[i] = byte(i*7 + i>>8)
	}
	if k > 0 {
		data[0] = sym.Uint8("first")
		data[k-1] = sym.Uint8("last")
	}
	var off int
	switch sym.Choose("at", 4) {
	case 0:
		off = 0
	case 1:
		off = n - k
	case 2:
		off = n - k + 1
	case 3:
		off = -1
	}
	buf := make([]byte, n)
	buf[0], buf[n-1] = 1, 2
	before := append([]byte{}, buf...)
	w := bytewriter.NewByteWriterSlice(buf)
	var end int
	var err error
	switch sym.Choose("form", 3) {
	case 0:
		end, err = w.Write(data, off)
	case 1:
		end, err = w.WriteString(string(data), off)
	case 2:
		end, err = w.WriteVal(string(data), off)
	}
	blocks(before, buf, data, off, end, err != nil)
}

// blocks is checkWrite for long data.
func blocks(before, after, data []byte, off, end int, failed bool) {
	n, k := len(before), len(data)
	fits := off >= 0 && off <= n-k
	sym.Assert(failed == !fits, "a write fails exactly when the data does not fit")
	if failed || !fits {
		sym.Assert(sym.EqBytes(before, after), "a failed write changed the buffer")
		return
	}
	sym.Assert(end == off+k, "a write returns the offset after the data")
	sym.Assert(sym.EqBytes(after[off:off+k], data), "a write stores the data at the offset")
	sym.Assert(sym.And(sym.EqBytes(after[:off], before[:off]), sym.EqBytes(after[off+k:], before[off+k:])), "a write changed a byte outside the data")
}

// C24_mapped_large: a writer over a mapped file of 4095 to 4097 or 70001
// bytes has exactly that size and starts zeroed, and what is written to its
// end is in the file.
func C24_mapped_large() {
	n := []int{4095, 4096, 4097, 70001}[sym.Choose("n", 4)]
	dir := filepath.Join(os.TempDir(), "c24")
	loc := filepath.Join(dir, "f")
	if sym.Choose("old", 2) == 1 {
		sym.Assert(os.MkdirAll(dir, 0755) == nil, "mkdir")
		old := make([]byte, 80000)
		old[0], old[4095], old[70000] = 1, 2, 3
		sym.Assert(os.WriteFile(loc, old, 0644) == nil, "old file")
	}
	w, err := bytewriter.NewMemoryMappedWriter(loc, n)
	sym.Assert(err == nil, "a mapped writer can be created")
	if err != nil {
		return
	}
	before, err := os.ReadFile(loc)
	sym.Assert(err == nil && len(before) == n && w.Len() == n, "the file has the requested size")
	sym.Assert(sym.EqBytes(before, make([]byte, n)), "the file starts zeroed")
	data := sym.Bytes("data", 3)
	off := n - 4 + sym.Choose("off", 3)
	end, werr := w.Write(data, off)
	got, err := os.ReadFile(loc)
	sym.Assert(err == nil && len(got) == n, "the file keeps its size")
	blocks(before, got, data, off, end, werr != nil)
	sym.Assert(w.Unmap(false) == nil, "Unmap succeeds")
	after, err := os.ReadFile(loc)
	sym.Assert(err == nil && sym.EqBytes(after, got), "Unmap(false) keeps the file and its content")
}

// C24_alias: Write of a part of the writer's own bytes, 6 arbitrary ones, to
// any other offset: the data is what it was when Write was called.
func C24_alias() {
	const n = 6
	before := sym.Bytes("before", n)
	w := bytewriter.NewByteWriterSlice(append([]byte{}, before...))
	from := sym.Choose("from", n)
	k := sym.Choose("k", n-from) + 1
	off := sym.Choose("off", n+1)
	end, err := w.Write(w.Bytes()[from:from+k], off)
	blocks(before, w.Bytes(), before[from:from+k], off, end, err != nil)
}
