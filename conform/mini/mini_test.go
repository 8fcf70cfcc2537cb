package mini

import (
	"context"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
)

func TestMini(t *testing.T) {
	b := New()
	defer b.Close()
	ctx, c := context.WithTimeout(context.Background(), 5*time.Second)
	defer c()
	conn, err := amqp.Dial(ctx, b.Addr, nil)
	if err != nil {
		t.Fatal(err)
	}
	s, err := conn.NewSession(ctx, nil)
	if err != nil {
		t.Fatal(err)
	}
	r, err := s.NewReceiver(ctx, "mc/x", &amqp.ReceiverOptions{Credit: 3})
	if err != nil {
		t.Fatal(err)
	}
	snd, err := s.NewSender(ctx, "mc/x", nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		if err := snd.Send(ctx, &amqp.Message{Value: int64(i)}, nil); err != nil {
			t.Fatal(err)
		}
		m, err := r.Receive(ctx, nil)
		if err != nil {
			t.Fatal(err)
		}
		if m.Value != int64(i) {
			t.Fatal(m.Value)
		}
		if err := r.AcceptMessage(ctx, m); err != nil {
			t.Fatal(err)
		}
	}
	t.Log(b.Links(), b.Conns(), b.Settled)
	r.Close(ctx)
	snd.Close(ctx)
	s.Close(ctx)
	conn.Close()
	time.Sleep(20 * time.Millisecond)
	if b.Conns() != 0 {
		t.Fatal("open")
	}
}
