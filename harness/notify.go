package main

import (
	"fmt"

	"github.com/singchia/geminio/delegate"
	"gmc/mc"
)

// recorder records what a delegate is told, and checks pairing on the fly.
type recorder struct {
	who        string
	log        []string
	reg        map[string]bool // remote registrations
	regs       []string
	connOn     int
	connOff    int
	beats      int
	connID     uint64
	connMeta   string
	dgOn       map[uint64]int
	dgOff      map[uint64]int
	dgMeta     map[uint64]string
	reonline   int
	refuseConn error
	refuseDg   map[string]error // by meta
	clientID   func(wanted uint64, meta []byte) (uint64, error)
	wanted     []uint64
	onDgOn     func(d delegate.DialogueDescriber)
	onReg      func(m string)
}

func (r *recorder) add(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.log = append(r.log, s)
	mc.Tick(r.who + " " + s)
}

func (r *recorder) ConnOnline(c delegate.ConnDescriber) error {
	r.add("conn online %d", c.ClientID())
	r.connOn++
	want(r.connOn == 1, "%s: conn online %d times", r.who, r.connOn)
	want(r.connOff == 0, "%s: conn online after offline", r.who)
	r.connID, r.connMeta = c.ClientID(), string(c.Meta())
	if r.refuseConn != nil {
		r.connOn--
		return r.refuseConn
	}
	return nil
}

func (r *recorder) ConnOffline(c delegate.ConnDescriber) error {
	r.add("conn offline %d", c.ClientID())
	r.connOff++
	want(r.connOn == 1, "%s: conn offline without online", r.who)
	want(r.connOff == 1, "%s: conn offline %d times", r.who, r.connOff)
	want(c.ClientID() == r.connID && string(c.Meta()) == r.connMeta, "%s: online was client %d meta %q, offline is client %d meta %q", r.who, r.connID, r.connMeta, c.ClientID(), c.Meta())
	return nil
}

func (r *recorder) Heartbeat(c delegate.ConnDescriber) error {
	r.beats++
	want(r.connOn == 1 && c.ClientID() == r.connID, "%s: heartbeat of client %d, online is %d", r.who, c.ClientID(), r.connID)
	return nil
}

func (r *recorder) DialogueOnline(d delegate.DialogueDescriber) error {
	r.add("stream online %d", d.DialogueID())
	if r.dgOn == nil {
		r.dgOn, r.dgOff, r.dgMeta = map[uint64]int{}, map[uint64]int{}, map[uint64]string{}
	}
	if err := r.refuseDg[string(d.Meta())]; err != nil {
		return err
	}
	r.dgOn[d.DialogueID()]++
	want(r.dgOn[d.DialogueID()] == 1, "%s: stream %d online %d times", r.who, d.DialogueID(), r.dgOn[d.DialogueID()])
	r.dgMeta[d.DialogueID()] = string(d.Meta())
	if r.onDgOn != nil {
		r.onDgOn(d)
	}
	return nil
}

func (r *recorder) DialogueOffline(d delegate.DialogueDescriber) error {
	r.add("stream offline %d", d.DialogueID())
	id := d.DialogueID()
	want(r.dgOn[id] == 1, "%s: stream %d offline without online", r.who, id)
	r.dgOff[id]++
	want(r.dgOff[id] == 1, "%s: stream %d offline %d times", r.who, id, r.dgOff[id])
	want(string(d.Meta()) == r.dgMeta[id], "%s: stream %d online with meta %q, offline with %q", r.who, id, r.dgMeta[id], d.Meta())
	return nil
}

func (r *recorder) EndReOnline(delegate.ClientDescriber) { r.add("reonline"); r.reonline++ }

func (r *recorder) RemoteRegistration(m string, c, s uint64) {
	r.add("remote registration %s", m)
	if r.reg != nil {
		r.reg[m] = true
	}
	r.regs = append(r.regs, fmt.Sprintf("%s/%d/%d", m, c, s))
	if r.onReg != nil {
		r.onReg(m)
	}
}

// allOffline checks that every online notification was matched.
func (r *recorder) allOffline() {
	want(r.connOn == r.connOff, "%s: conn online %d times, offline %d times", r.who, r.connOn, r.connOff)
	for id, n := range r.dgOn {
		want(r.dgOff[id] == n, "%s: stream %d online %d times, offline %d times", r.who, id, n, r.dgOff[id])
	}
}

type cliDlgt struct{ *recorder }
type srvDlgt struct{ *recorder }

func (d *cliDlgt) GetClientID(meta []byte) (uint64, error) { return 0, nil }

func (d *srvDlgt) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	d.wanted = append(d.wanted, wanted)
	if d.clientID != nil {
		return d.clientID(wanted, meta)
	}
	return 0, nil
}

// chooser is a server delegate for several clients that refuses one by its meta.
type chooser struct {
	delegate.UnimplementedDelegate
	refuse string
}

func (d *chooser) ConnOnline(c delegate.ConnDescriber) error {
	if string(c.Meta()) == d.refuse {
		return errRefused
	}
	return nil
}

func (d *chooser) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	return 100 + uint64(meta[len(meta)-1]), nil
}
