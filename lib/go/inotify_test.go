package vh

// Records file operations on a set of directories with inotify.

import (
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"
)

type vhFileEvent struct {
	Op  string `json:"op"`
	F   string `json:"f"`
	Src string `json:"src"`
	Q   bool   `json:"q"`
}

func vhWatch(dirs []string, q func(string) bool) (func() []vhFileEvent, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK)
	if err != nil {
		return nil, err
	}
	wds := map[int32]string{}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_CLOSE_WRITE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE)
		if err != nil {
			return nil, err
		}
		wds[int32(wd)] = d
	}
	return func() []vhFileEvent {
		evs := []vhFileEvent{}
		from := map[uint32]string{}
		buf := make([]byte, 1<<20)
		for {
			n, err := syscall.Read(fd, buf)
			if err != nil || n <= 0 {
				break
			}
			for off := 0; off+syscall.SizeofInotifyEvent <= n; {
				e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
				name := strings.TrimRight(string(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
				off += syscall.SizeofInotifyEvent + int(e.Len)
				f := filepath.Join(wds[e.Wd], name)
				ev := vhFileEvent{F: f, Q: q(f)}
				switch {
				case e.Mask&syscall.IN_CREATE != 0:
					ev.Op = "create"
				case e.Mask&syscall.IN_MODIFY != 0:
					ev.Op = "modify"
				case e.Mask&syscall.IN_CLOSE_WRITE != 0:
					ev.Op = "close"
				case e.Mask&syscall.IN_MOVED_FROM != 0:
					ev.Op = "from"
					from[e.Cookie] = f
				case e.Mask&syscall.IN_MOVED_TO != 0:
					ev.Op = "to"
					ev.Src = from[e.Cookie]
				case e.Mask&syscall.IN_DELETE != 0:
					ev.Op = "delete"
				default:
					continue
				}
				evs = append(evs, ev)
			}
		}
		syscall.Close(fd)
		return evs
	}, nil
}
