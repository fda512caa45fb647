package main

import (
	"os"
	"os/exec"
	"syscall"
	"unsafe"
)

// ownNet describes a process with a user and a network namespace of its own; with nobody also in it, if that can be.
func ownNet() *syscall.SysProcAttr {
	a := &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
	}
	if !alone {
		nobody := syscall.SysProcIDMap{ContainerID: 65534, HostID: 65534, Size: 1}
		a.UidMappings = append(a.UidMappings, nobody)
		a.GidMappings = append(a.GidMappings, nobody)
		a.GidMappingsEnableSetgroups = true
	}
	return a
}

// alone: no other users can be mapped into a namespace.
var alone bool

func init() {
	helpers["netns-test"] = func([]string) {
		if loopbackUp() != nil {
			os.Exit(1)
		}
	}
}

func canUnshare() bool {
	for _, alone = range []bool{false, true} {
		cmd := exec.Command(os.Args[0], "netns-test")
		cmd.SysProcAttr = ownNet()
		if cmd.Run() == nil {
			return true
		}
	}
	return false
}

// loopbackUp sets the loopback interface of this process's network namespace up.
func loopbackUp() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var req struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(req.name[:], "lo")
	req.flags = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req))); e != 0 {
		return e
	}
	return nil
}
