// Package simwin stands in for the part of Windows' file API which the library
// uses: a table of files and of open handles with Windows' sharing rules.
// Handles belong to simulated processes (simrt.Proc) and their numbers are
// reused as the system does; a killed process loses its handles.
package simwin

import (
	"strings"
	"syscall"
	"unicode/utf16"
	"unsafe"

	"gxsim/simrt"
)

// Handle is a Windows handle.
type Handle uintptr

// InvalidHandle is what a failed CreateFile returns.
const InvalidHandle = ^Handle(0)

// SecurityAttributes as in the Windows API.
type SecurityAttributes struct {
	Length             uint32
	SecurityDescriptor uintptr
	InheritHandle      uint32
}

// Constants of the API, with Windows' values.
const (
	GENERIC_READ    = 0x80000000
	GENERIC_WRITE   = 0x40000000
	GENERIC_EXECUTE = 0x20000000
	GENERIC_ALL     = 0x10000000

	FILE_SHARE_READ   = 1
	FILE_SHARE_WRITE  = 2
	FILE_SHARE_DELETE = 4

	CREATE_NEW        = 1
	CREATE_ALWAYS     = 2
	OPEN_EXISTING     = 3
	OPEN_ALWAYS       = 4
	TRUNCATE_EXISTING = 5

	FILE_ATTRIBUTE_READONLY      = 1
	FILE_ATTRIBUTE_HIDDEN        = 2
	FILE_ATTRIBUTE_SYSTEM        = 4
	FILE_ATTRIBUTE_DIRECTORY     = 0x10
	FILE_ATTRIBUTE_ARCHIVE       = 0x20
	FILE_ATTRIBUTE_NORMAL        = 0x80
	FILE_FLAG_OVERLAPPED         = 0x40000000
	FILE_FLAG_BACKUP_SEMANTICS   = 0x02000000
	FILE_FLAG_OPEN_REPARSE_POINT = 0x00200000

	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_CREAT  = 0x40
	O_EXCL   = 0x80

	MAX_PATH = 260

	ERROR_FILE_NOT_FOUND      = syscall.Errno(2)
	ERROR_PATH_NOT_FOUND      = syscall.Errno(3)
	ERROR_ACCESS_DENIED       = syscall.Errno(5)
	ERROR_SHARING_VIOLATION   = syscall.Errno(32)
	ERROR_HANDLE_EOF          = syscall.Errno(38)
	ERROR_FILE_EXISTS         = syscall.Errno(80)
	ERROR_ALREADY_EXISTS      = syscall.Errno(183)
	ERROR_INVALID_HANDLE      = syscall.Errno(6)
	ERROR_INSUFFICIENT_BUFFER = syscall.Errno(122)
	ERROR_IO_PENDING          = syscall.Errno(997)

	// the POSIX names exist on Windows but as numbers of Go's own, which no
	// system call returns
	invented = 1 << 29
	EACCES   = syscall.Errno(invented + 2)
	EAGAIN   = syscall.Errno(invented + 5)
	EBUSY    = syscall.Errno(invented + 16)
	EEXIST   = syscall.Errno(invented + 31)
	EINVAL   = syscall.Errno(invented + 39)
	ENOENT   = syscall.Errno(invented + 66)
	EPERM    = syscall.Errno(invented + 87)
	ETXTBSY  = syscall.Errno(invented + 121)
)

type open struct {
	used   bool
	proc   int
	task   int
	h      Handle
	path   string
	access uint32
	share  uint32
}

var (
	handles [512]open
	files   [16]string
	nfiles  int
	inject  func(task int) error
)

// Reset empties the table, creates the given files and installs a function
// which may make a CreateFile call fail.
func Reset(names []string, hook func(task int) error) {
	handles = [512]open{}
	nfiles = copy(files[:], names)
	inject = hook
}

// Remove deletes a file name (as after a delete by another program).
//
//go:norace
func Remove(name string) {
	for i := 0; i < nfiles; i++ {
		if files[i] == name {
			files[i] = files[nfiles-1]
			nfiles--
			return
		}
	}
}

// Create makes a file name exist again.
//
//go:norace
func Create(name string) {
	if !exists(name) && nfiles < len(files) {
		files[nfiles] = name
		nfiles++
	}
}

//go:norace
func exists(name string) bool {
	for i := 0; i < nfiles; i++ {
		if files[i] == name {
			return true
		}
	}
	return false
}

// Handles counts open handles of a process (-1: all) and a task (-1: all).
//
//go:norace
func Handles(proc, task int) int {
	n := 0
	for i := range handles {
		if o := &handles[i]; o.used && (proc < 0 || o.proc == proc) && (task < 0 || o.task == task) {
			n++
		}
	}
	return n
}

// Kill closes all handles of a process.
//
//go:norace
func Kill(proc int) {
	for i := range handles {
		if handles[i].used && handles[i].proc == proc {
			handles[i].used = false
		}
	}
}

// Foreign opens or closes a file on behalf of a program outside the
// simulation (a virus scanner, say) which shares it with nobody.
//
//go:norace
func Foreign(path string, opened bool) {
	for i := range handles {
		if o := &handles[i]; o.used && o.proc == -7 && o.path == path {
			o.used = false
		}
	}
	if !opened || conflict(path, GENERIC_READ, 0) {
		return
	}
	for i := range handles {
		if o := &handles[i]; !o.used {
			o.used, o.proc, o.task, o.h, o.path, o.access, o.share = true, -7, -7, 4, path, GENERIC_READ, 0
			return
		}
	}
}

//go:norace
func conflict(path string, access, share uint32) bool {
	if access&GENERIC_ALL != 0 {
		access |= GENERIC_READ | GENERIC_WRITE
	}
	for i := range handles {
		o := &handles[i]
		if !o.used || o.path != path {
			continue
		}
		if access&(GENERIC_READ|GENERIC_EXECUTE) != 0 && o.share&FILE_SHARE_READ == 0 && o.access != 0 ||
			access&GENERIC_WRITE != 0 && o.share&FILE_SHARE_WRITE == 0 && o.access != 0 ||
			o.access&(GENERIC_READ|GENERIC_EXECUTE) != 0 && share&FILE_SHARE_READ == 0 && access != 0 ||
			o.access&GENERIC_WRITE != 0 && share&FILE_SHARE_WRITE == 0 && access != 0 {
			return true
		}
	}
	return false
}

//go:norace
func str(p *uint16) string {
	if p == nil {
		return ""
	}
	var u []uint16
	for i := uintptr(0); ; i++ {
		c := *(*uint16)(unsafe.Pointer(uintptr(unsafe.Pointer(p)) + 2*i))
		if c == 0 {
			break
		}
		u = append(u, c)
	}
	// names are case-insensitive
	return strings.ToLower(string(utf16.Decode(u)))
}

// CreateFile opens or creates a file.
func CreateFile(name *uint16, access, mode uint32, sa *SecurityAttributes, createmode, attrs uint32, templatefile int32) (Handle, error) {
	simrt.YS()
	h, err := createFile(str(name), access, mode, createmode)
	simrt.YS()
	if err != 0 {
		return h, err
	}
	return h, nil
}

//go:norace
func createFile(path string, access, mode, createmode uint32) (Handle, syscall.Errno) {
	if inject != nil {
		if e := inject(simrt.Self()); e != nil {
			return InvalidHandle, e.(syscall.Errno)
		}
	}
	if path == "" {
		return InvalidHandle, ERROR_PATH_NOT_FOUND
	}
	if access&GENERIC_ALL != 0 {
		access |= GENERIC_READ | GENERIC_WRITE
	}
	there := exists(path)
	switch createmode {
	case CREATE_NEW:
		if there {
			return InvalidHandle, ERROR_FILE_EXISTS
		}
	case OPEN_EXISTING, TRUNCATE_EXISTING:
		if !there {
			return InvalidHandle, ERROR_FILE_NOT_FOUND
		}
	case CREATE_ALWAYS, OPEN_ALWAYS:
	default:
		return InvalidHandle, syscall.Errno(87)
	}
	if conflict(path, access, mode) {
		return InvalidHandle, ERROR_SHARING_VIOLATION
	}
	if !there {
		Create(path)
	}
	proc := simrt.Proc()
	h := Handle(4)
	for taken(proc, h) {
		h += 4
	}
	for i := range handles {
		if o := &handles[i]; !o.used {
			o.used, o.proc, o.task, o.h, o.path, o.access, o.share = true, proc, simrt.Self(), h, path, access, mode
			return h, 0
		}
	}
	return InvalidHandle, syscall.Errno(4)
}

//go:norace
func taken(proc int, h Handle) bool {
	for i := range handles {
		if o := &handles[i]; o.used && o.proc == proc && o.h == h {
			return true
		}
	}
	return false
}

// CloseHandle closes a handle of the calling process.
func CloseHandle(h Handle) error {
	simrt.YS()
	ok := closeHandle(h)
	simrt.YS()
	if !ok {
		return ERROR_INVALID_HANDLE
	}
	return nil
}

//go:norace
func closeHandle(h Handle) bool {
	proc := simrt.Proc()
	for i := range handles {
		if o := &handles[i]; o.used && o.proc == proc && o.h == h {
			o.used = false
			return true
		}
	}
	return false
}

// Close is CloseHandle.
func Close(h Handle) error { return CloseHandle(h) }

// UTF16FromString returns the zero-terminated UTF-16 form.
func UTF16FromString(s string) ([]uint16, error) {
	if strings.IndexByte(s, 0) >= 0 {
		return nil, EINVAL
	}
	return append(utf16.Encode([]rune(s)), 0), nil
}

// UTF16PtrFromString returns a pointer to the UTF-16 form.
func UTF16PtrFromString(s string) (*uint16, error) {
	a, err := UTF16FromString(s)
	if err != nil {
		return nil, err
	}
	return &a[0], nil
}

// StringToUTF16 is UTF16FromString which panics.
func StringToUTF16(s string) []uint16 {
	a, err := UTF16FromString(s)
	if err != nil {
		panic("syscall: string with NUL passed to StringToUTF16")
	}
	return a
}

// StringToUTF16Ptr is UTF16PtrFromString which panics.
func StringToUTF16Ptr(s string) *uint16 { return &StringToUTF16(s)[0] }

// UTF16ToString is the inverse.
func UTF16ToString(s []uint16) string {
	for i, v := range s {
		if v == 0 {
			s = s[:i]
			break
		}
	}
	return string(utf16.Decode(s))
}
