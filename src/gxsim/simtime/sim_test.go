package simtime

import (
	"testing"
	"time"

	"gxsim/simrt"
)

// run executes the program under many schedules.
func run(t *testing.T, n int, end string, prog func() (tasks []func(), check func() string)) {
	t.Helper()
	for seed := uint64(1); seed <= uint64(n); seed++ {
		ts, check := prog()
		o := simrt.Run(simrt.Config{Cap: 100000, Tick: 1, Sched: simrt.Sched{Seed: seed, Q: 1 + int(seed%50), PSync: 0.3, PStmt: 0.1, PPick: 0.5}}, ts)
		if o.End != end || len(o.Panics) > 0 {
			t.Fatalf("seed %d: %s %v %v", seed, o.End, o.Stuck, o.Panics)
		}
		if m := check(); m != "" {
			t.Fatalf("seed %d: %s", seed, m)
		}
	}
}

func TestUnbuffered(t *testing.T) {
	run(t, 500, "done", func() ([]func(), func() string) {
		ch, ack := make(chan int), make(chan int)
		sum, shared := 0, 0
		send := func() {
			for i := 1; i <= 5; i++ {
				shared = i // ordered by the rendezvous
				simrt.Send(ch, i)
				simrt.Recv1(ack)
			}
			simrt.Close(ch)
		}
		recv := func() {
			for {
				v, ok := simrt.Recv2(ch)
				if !ok {
					return
				}
				sum += v*10 + shared
				simrt.Send(ack, 1)
			}
		}
		return []func(){send, recv}, func() string {
			if sum != 165 {
				return "sum"
			}
			return ""
		}
	})
}

// A buffered channel as a semaphore orders its holders.
func TestSemaphore(t *testing.T) {
	run(t, 500, "done", func() ([]func(), func() string) {
		ch := make(chan struct{}, 1)
		n := 0
		w := func() {
			for i := 0; i < 3; i++ {
				simrt.Send(ch, struct{}{})
				n++
				simrt.Recv1(ch)
			}
		}
		return []func(){w, w, w}, func() string {
			if n != 9 {
				return "count"
			}
			return ""
		}
	})
}

func TestSelect(t *testing.T) {
	run(t, 500, "done", func() ([]func(), func() string) {
		a, b, quit := make(chan int), make(chan int), make(chan bool)
		got := 0
		src := func(c chan int) func() {
			return func() {
				for i := 0; i < 4; i++ {
					simrt.Send(c, 1)
				}
			}
		}
		return []func(){
			src(a), src(b),
			func() {
				for i := 0; i < 8; i++ {
					ra, rb := simrt.RC(a), simrt.RC(b)
					switch simrt.Select(false, ra, rb) {
					case 0:
						got += ra.V
					case 1:
						got += rb.V
					}
				}
				simrt.Close(quit)
			},
			func() { // a select that sends and receives
				simrt.Select(false, simrt.SC(make(chan int))(3), simrt.RC(quit))
			},
		}, func() string {
			if got != 8 {
				return "lost a value"
			}
			return ""
		}
	})
}

// Two selects meet: no value is lost when the receiver takes another case.
func TestSelectSelect(t *testing.T) {
	run(t, 1000, "done", func() ([]func(), func() string) {
		a, b := make(chan int), make(chan int)
		got := 0
		var n1, n2 int
		return []func(){
			func() { s1(a, &n1) },
			func() { s1(b, &n2) },
			func() {
				tm := After(30)
				for {
					ra, rb, rt := simrt.RC(a), simrt.RC(b), simrt.RC(tm)
					if simrt.Select(false, ra, rb, rt) == 2 {
						return
					}
					got++
				}
			},
		}, func() string {
			if n1+n2 != got {
				return "sent and received differ"
			}
			return ""
		}
	})
}

func s1(c chan int, n *int) {
	tm := After(20)
	if simrt.Select(false, simrt.SC(c)(1), simrt.RC(tm)) == 0 {
		*n++
	}
}

func TestDeadlock(t *testing.T) {
	run(t, 50, "deadlock", func() ([]func(), func() string) {
		ch := make(chan int)
		return []func(){func() { simrt.Send(ch, 1) }, func() { simrt.Send(ch, 2) }}, func() string { return "" }
	})
}

func TestTimers(t *testing.T) {
	run(t, 300, "done", func() ([]func(), func() string) {
		n, f, stopped := 0, 0, false
		return []func(){func() {
			x := 5
			done := make(chan bool)
			AfterFunc(time.Second, func() { f += x; simrt.Close(done) })
			simrt.Recv1(done)
			tk := NewTicker(time.Minute)
			for i := 0; i < 3; i++ {
				simrt.Recv1(tk.C)
				n++
			}
			tk.Stop()
			for i := 0; i < 1000; i++ {
				simrt.Recv1(After(time.Hour))
			}
			tm := NewTimer(time.Hour)
			stopped = tm.Stop()
			tm.Reset(time.Second)
			simrt.Recv1(tm.C)
			NewTicker(time.Second) // never stopped
			simrt.Go(func() { simrt.Recv1(make(chan int)) })
		}}, func() string {
			if n != 3 || f != 5 || !stopped {
				return "timers"
			}
			return ""
		}
	})
}
