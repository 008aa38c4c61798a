package simrt

import (
	"os"
	"syscall"
	"time"
)

// Stand-ins for what package syscall offers on Linux only, in terms of calls the simulated system has.
const (
	LOCK_SH       = 1
	LOCK_EX       = 2
	LOCK_NB       = 4
	LOCK_UN       = 8
	PROT_READ     = 1
	MAP_SHARED    = 1
	MAP_PRIVATE   = 2
	MAP_POPULATE  = 0x8000
	O_NONBLOCK    = 0
	O_DIRECT      = 0
	O_NOATIME     = 0
	RLIMIT_NOFILE = 7
	EWOULDBLOCK   = syscall.EAGAIN
	ENODATA       = syscall.Errno(1061)
	EUCLEAN       = syscall.Errno(1117)
	EREMOTEIO     = syscall.Errno(1121)
)

// Flock locks a file nobody else holds.
func Flock(fd int, how int) error { return nil }

// Mmap reads what would be mapped; beyond the end of the file there are zeros.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	b := make([]byte, length)
	for n := 0; n < length; {
		k, err := syscall.Pread(fd, b[n:], offset+int64(n))
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, err
		}
		if k == 0 {
			break
		}
		n += k
	}
	return b, nil
}

// Munmap has nothing to give back.
func Munmap(b []byte) error { return nil }

// Madvise is advice.
func Madvise(b []byte, advice int) error { return nil }

// Access tells whether a file can be opened.
func Access(path string, mode uint32) error {
	if mode == 0 {
		_, err := os.Stat(path)
		return errno(err)
	}
	f, err := os.Open(path)
	if err == nil {
		err = f.Close()
	}
	return errno(err)
}

func errno(err error) error {
	if e, ok := err.(*os.PathError); ok {
		return e.Err
	}
	return err
}

// Utimbuf are the times of a file.
type Utimbuf struct{ Actime, Modtime int64 }

// Utime sets them.
func Utime(path string, t *Utimbuf) error {
	return errno(os.Chtimes(path, time.Unix(t.Actime, 0), time.Unix(t.Modtime, 0)))
}

// Utimes sets them.
func Utimes(path string, tv []syscall.Timeval) error {
	return errno(os.Chtimes(path, time.Unix(tv[0].Unix()), time.Unix(tv[1].Unix())))
}

// Rlimit is a limit of the process.
type Rlimit struct{ Cur, Max uint64 }

var rlimit = Rlimit{1024, 4096}

// Getrlimit returns a usual one.
func Getrlimit(resource int, r *Rlimit) error { *r = rlimit; return nil }

// Setrlimit is refused, as it changes nothing.
func Setrlimit(resource int, r *Rlimit) error { return syscall.EPERM }
