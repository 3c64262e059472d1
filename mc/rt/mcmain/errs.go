//go:build go1.21

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	netscrape "github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"github.com/milosgajdos/netscrape/pkg/store"
)

// tempErr is an error that calls itself a temporary timeout.
type tempErr struct{}

func (*tempErr) Error() string   { return "temporary" }
func (*tempErr) Timeout() bool   { return true }
func (*tempErr) Temporary() bool { return true }

// blankErr is an error without a text.
type blankErr struct{}

func (*blankErr) Error() string { return "" }

// listErr is an error that cannot be compared with one of its kind.
type listErr []string

func (l listErr) Error() string { return fmt.Sprint([]string(l)) }

// oddErrors are the errors somebody else may return: those that have a meaning
// somewhere, each also wrapped and along with another.
func oddErrors() []error { return theOddErrors }

var theOddErrors = func() []error {
	base := []error{
		context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrNotExist, os.ErrExist, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, syscall.EPIPE,
		broker.ErrTimeout, broker.ErrNotConnected, broker.ErrSubscriptionInactive, broker.ErrTopicNotExist, broker.ErrNotImplemented,
		netscrape.ErrMissingPlan, netscrape.ErrNotImplemented, plan.ErrResourceNotFound, plan.ErrNotImplemented,
		store.ErrNotImplemented, store.ErrUnsupported, store.ErrEntityNotFound, store.ErrAlreadyExists, store.ErrNotExist,
		graph.ErrNotImplemented, graph.ErrUnsupported, graph.ErrNodeNotFound, graph.ErrEdgeNotFound, graph.ErrEdgeNotExist, graph.ErrDuplicateNode, graph.ErrMissingEntity, graph.ErrMissingResource, graph.ErrInvalidEntity, graph.ErrInvalidNode, graph.ErrUnknownEntity,
		cache.ErrNotImplemented, cache.ErrUnsupported, space.ErrNotImplemented, marshal.ErrUnsuportedType, marshal.ErrNotImplemented,
		&tempErr{}, &blankErr{},
	}
	out := append([]error(nil), base...)
	for _, e := range base {
		out = append(out, fmt.Errorf("wrapped: %w", e), errors.Join(errors.New("first"), e))
	}
	return append(out, listErr{"a", "b"}, fmt.Errorf("wrapped: %w", listErr{"c"}))
}()

// sameErr reports whether got is, or wraps, want.
func sameErr(got, want error) bool {
	if l, ok := want.(listErr); ok {
		var g listErr
		return errors.As(got, &g) && g.Error() == l.Error()
	}
	return errors.Is(got, want)
}

func errName(e error) string { return fmt.Sprintf("%T %q", e, e.Error()) }

// namedErr is an error that a property states, with its name.
type namedErr struct {
	name string
	err  error
}

// statedErrs are the errors that the properties tell apart.
func statedErrs(id string) []namedErr {
	invalid := namedErr{"graph.ErrInvalidNode", graph.ErrInvalidNode}
	node := namedErr{"graph.ErrNodeNotFound", graph.ErrNodeNotFound}
	edge := namedErr{"graph.ErrEdgeNotExist", graph.ErrEdgeNotExist}
	dup := namedErr{"graph.ErrDuplicateNode", graph.ErrDuplicateNode}
	ent := namedErr{"store.ErrEntityNotFound", store.ErrEntityNotFound}
	exists := namedErr{"store.ErrAlreadyExists", store.ErrAlreadyExists}
	conn := namedErr{"broker.ErrNotConnected", broker.ErrNotConnected}
	inactive := namedErr{"broker.ErrSubscriptionInactive", broker.ErrSubscriptionInactive}
	timeout := namedErr{"broker.ErrTimeout", broker.ErrTimeout}
	switch id {
	case "C01":
		return []namedErr{invalid, node, dup}
	case "C02", "C05":
		return []namedErr{node, edge, dup}
	case "C03":
		return []namedErr{node}
	case "C06", "C07":
		return []namedErr{ent, exists}
	case "C10":
		return []namedErr{{"plan.ErrResourceNotFound", plan.ErrResourceNotFound}}
	case "C12", "C13", "C14":
		return []namedErr{conn, inactive, timeout}
	case "C16":
		return []namedErr{{"ErrMissingPlan", netscrape.ErrMissingPlan}}
	case "C18":
		return []namedErr{{"marshal.ErrUnsuportedType", marshal.ErrUnsuportedType}}
	}
	return nil
}

// errUnit checks that nobody takes one of the errors for another.
func errUnit(id string) []Unit {
	es := statedErrs(id)
	if len(es) == 0 {
		return nil
	}
	return []Unit{{Name: "error values", Run: func(r *R) {
		n := len(es)
		r.Batch("errors", n*n, false, func(i int) string { return es[i/n].name + " and " + es[i%n].name }, func(i int) string {
			a, b := es[i/n], es[i%n]
			switch {
			case a.err == nil:
				return a.name + " is nil"
			case errors.Is(a.err, b.err) != (a.name == b.name):
				return fmt.Sprintf("errors.Is(%s, %s) is %t", a.name, b.name, a.name != b.name)
			}
			return ""
		})
	}}}
}
