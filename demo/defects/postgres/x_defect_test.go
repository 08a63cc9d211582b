package postgres

import (
	"context"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

// A stand-in for a server that knows transactions and one table lock, which a session holds until
// its transaction ends and can take again while it holds it.
type fakeServer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	holder net.Conn
}

func (s *fakeServer) serve(c net.Conn) {
	defer c.Close()
	b := pgproto3.NewBackend(c, c)
	if _, err := b.ReceiveStartupMessage(); err != nil {
		return
	}
	b.Send(&pgproto3.AuthenticationOk{})
	b.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
	b.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'})
	b.Flush()
	status := byte('I')
	for {
		m, err := b.Receive()
		if err != nil {
			return
		}
		q, ok := m.(*pgproto3.Query)
		if !ok {
			return
		}
		sql := strings.ToUpper(strings.TrimSpace(q.String))
		switch {
		case strings.HasPrefix(sql, "BEGIN"):
			status = 'T'
		case strings.HasPrefix(sql, "COMMIT"), strings.HasPrefix(sql, "ROLLBACK"):
			status = 'I'
			s.mu.Lock()
			if s.holder == c {
				s.holder = nil
			}
			s.cond.Broadcast()
			s.mu.Unlock()
		case strings.HasPrefix(sql, "LOCK"):
			s.mu.Lock()
			for s.holder != nil && s.holder != c {
				s.cond.Wait()
			}
			s.holder = c
			s.mu.Unlock()
		}
		b.Send(&pgproto3.CommandComplete{CommandTag: []byte(strings.Fields(sql)[0])})
		b.Send(&pgproto3.ReadyForQuery{TxStatus: status})
		b.Flush()
	}
}

func TestUpdatesOfOneNamespaceOverlap(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	srv := &fakeServer{}
	srv.cond = sync.NewCond(&srv.mu)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go srv.serve(c)
		}
	}()
	ctx := context.Background()
	pool, err := pgxpool.New(ctx, "postgres://u@"+l.Addr().String()+"/d?sslmode=disable")
	if err != nil {
		t.Fatal(err)
	}
	st := &Storage{}
	switch f := any(&st.Pool).(type) {
	case **pgxpool.Conn:
		if *f, err = pool.Acquire(ctx); err != nil {
			t.Fatal(err)
		}
	case **pgxpool.Pool:
		*f = pool
	}
	if err := st.ExecuteUpdate(ctx, []byte("ns"), func(context.Context, verifiable.KeyWriter) error { return nil }); err != nil {
		t.Fatal(err)
	}

	var mu sync.Mutex
	inside := 0
	entered := make(chan struct{}, 2)
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() {
			done <- st.ExecuteUpdate(ctx, []byte("ns"), func(context.Context, verifiable.KeyWriter) error {
				mu.Lock()
				inside++
				if inside > 1 {
					t.Error("two updates of the same namespace run at the same time")
				}
				mu.Unlock()
				entered <- struct{}{}
				time.Sleep(300 * time.Millisecond)
				mu.Lock()
				inside--
				mu.Unlock()
				return nil
			})
		}()
		if i == 0 {
			<-entered
		}
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Error(err)
		}
	}
}
