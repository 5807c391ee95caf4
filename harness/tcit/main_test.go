package tcit

import (
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"syscall"
	"testing"

	"vh/vlib"
)

type M = vlib.M

func TestMain(m *testing.M) {
	if os.Getenv("VH_NAMESPACE") == "" {
		os.Exit(asStranger())
	}
	if u, err := user.Current(); err != nil || u.HomeDir != os.Getenv("HOME") || filepath.Dir(u.HomeDir) == "/" {
		panic("not running with a home of its own")
	}
	vlib.Setup()
	os.Exit(m.Run())
}

// asStranger runs this program again as a user who is not listed in /etc/passwd, in a user namespace of its own.
// Only then is the home directory, where the reference data is kept, the one in $HOME, which is a scratch directory.
func asStranger() int {
	const uid = 54321
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VH_NAMESPACE=1", "USER=verif")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: uid, HostID: os.Getuid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	err := cmd.Run()
	if cmd.ProcessState == nil {
		panic(err)
	}
	return cmd.ProcessState.ExitCode()
}
