package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	randv2 "math/rand/v2"
	"net"
	"os"
	"syscall"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type tempErr struct{ _ int }

func (*tempErr) Error() string   { return "resource temporarily unavailable" }
func (*tempErr) Timeout() bool   { return true }
func (*tempErr) Temporary() bool { return true }

const failKinds = 20

// failure returns an error of the k-th kind in which remote calls can fail. Those below
// failOwn are values of their own, by which the call can be told again.
const failOwn = 14

func failure(k int, p string) error {
	switch k % failKinds {
	case 0:
		return errors.New("injected remote failure")
	case 1:
		return &os.PathError{Op: "open", Path: p, Err: syscall.ENOENT}
	case 2:
		return &os.PathError{Op: "open", Path: p, Err: os.ErrPermission}
	case 3:
		return &os.PathError{Op: "read", Path: p, Err: io.ErrUnexpectedEOF}
	case 4:
		return &sftp.StatusError{Code: 2}
	case 5:
		return &sftp.StatusError{Code: 4}
	case 6:
		return &sftp.StatusError{Code: []uint32{3, 5, 6, 7, 8}[randv2.IntN(5)]}
	case 7:
		return &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	case 8:
		return &net.OpError{Op: "dial", Net: "tcp", Err: &tempErr{}}
	case 9:
		return &tempErr{}
	case 10:
		return &ssh.OpenChannelError{Reason: ssh.ResourceShortage}
	case 11:
		return fmt.Errorf("wrapped: %w", os.ErrNotExist)
	case 12:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 13:
		return errors.New("")
	case 14:
		return io.EOF
	case 15:
		return os.ErrNotExist
	case 16:
		return io.ErrUnexpectedEOF
	case 17:
		return context.DeadlineExceeded
	case 18:
		return sftp.ErrSshFxConnectionLost
	default:
		return os.ErrDeadlineExceeded
	}
}

func injected(p string) error { return failure(randv2.IntN(failKinds), p) }
