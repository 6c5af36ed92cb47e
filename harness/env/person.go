package env

import (
	"fmt"
	"math/rand"
	"strconv"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
)

// PersonA holds personal texts, PersonB personal numbers. Their methods follow
// what the event generator writes for fields tagged as personal data.
type PersonA struct {
	T      string `json:"t"`
	ID     string `json:"id" encrypt:"subject-id"`
	UID    string `json:"uid"`
	Name   string `json:"name" encrypt:"personal-data"`
	Email  string `json:"email" encrypt:"personal-data"`
	Status string `json:"status"`
	Plain  int    `json:"plain"`
}
type PersonB struct {
	T            string `json:"t"`
	ID           string `json:"id" encrypt:"subject-id"`
	UID          string `json:"uid"`
	Num          int    `json:"num" encrypt:"personal-data" serialized:"NumEncrypted"`
	NumEncrypted string `json:"numEncrypted"`
	Text         string `json:"text" encrypt:"personal-data"`
	Status       string `json:"status"`
}

func (e PersonA) AggregateID() string   { return e.ID }
func (e PersonA) AggregateType() string { return e.T }
func (e PersonA) EventType() string     { return "VerifPersonA" }
func (e PersonB) AggregateID() string   { return e.ID }
func (e PersonB) AggregateType() string { return e.T }
func (e PersonB) EventType() string     { return "VerifPersonB" }

func (e *PersonA) both(f func(string, string) (string, error)) error {
	a, err := f(e.ID, e.Name)
	var b string
	if err == nil {
		b, err = f(e.ID, e.Email)
	}
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Name, e.Email = "", ""
		}
		return err
	}
	e.Name, e.Email = a, b
	return nil
}

// Encrypt implements crypto.SelfEncryptor.
func (e *PersonA) Encrypt(enc crypto.Encryptor) error { return e.both(enc.Encrypt) }

// Decrypt implements crypto.SelfEncryptor.
func (e *PersonA) Decrypt(enc crypto.Encryptor) error { return e.both(enc.Decrypt) }

// Encrypt implements crypto.SelfEncryptor.
func (e *PersonB) Encrypt(enc crypto.Encryptor) error {
	a, err := enc.Encrypt(e.ID, strconv.Itoa(e.Num))
	var b string
	if err == nil {
		b, err = enc.Encrypt(e.ID, e.Text)
	}
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Num, e.Text = 0, ""
		}
		return err
	}
	e.Num, e.NumEncrypted, e.Text = 0, a, b
	return nil
}

// Decrypt implements crypto.SelfEncryptor.
func (e *PersonB) Decrypt(enc crypto.Encryptor) error {
	s, err := enc.Decrypt(e.ID, e.NumEncrypted)
	var b string
	if err == nil {
		b, err = enc.Decrypt(e.ID, e.Text)
	}
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Num, e.Text = 0, ""
		}
		return err
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return err
	}
	e.Num, e.NumEncrypted, e.Text = n, "", b
	return nil
}

// BindPersons binds every personal event type.
func BindPersons(b rangedb.EventBinder) {
	b.Bind(&PersonA{}, &PersonB{}, &cryptotest.CustomerSignedUp{}, &cryptotest.CustomerAddedBirth{})
}

// Secret is a personal value that occurs nowhere else.
func Secret(r *rand.Rand) string {
	s := fmt.Sprintf("S3CR3T%012x", r.Int63())
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZghijklmnopqrstuvwxyz+/"
	switch r.Intn(8) {
	case 0, 1:
		s += RandText(r, r.Intn(20))
	case 2:
		s = RandText(r, r.Intn(5)) + s
	case 3:
		// what could be taken for base64, and so for cipher text
		for n := 4 * r.Intn(40); len(s) < n || len(s)%4 != 0; {
			s += alphabet[r.Intn(len(alphabet)):][:1]
		}
		if r.Intn(2) == 0 {
			s = s[:len(s)-r.Intn(2)-1]
			for len(s)%4 != 0 {
				s += "="
			}
		}
	case 4:
		s = []string{" ", "\t", "\n", "\"", "{", "'", "\x00", "null", "0x", "enc:", "$"}[r.Intn(11)] + s + []string{" ", "\n", "\"", "}", "==", "\x00", "%"}[r.Intn(7)]
	case 5:
		for n := r.Intn(3000); len(s) < n; {
			s += RandText(r, 40) + " "
		}
	}
	return s
}

// MakePerson makes an event with personal data. It returns the event, the same
// event as readers get it, and the values that must not be seen by others.
func MakePerson(r *rand.Rand, subject, uid string) (ev, want rangedb.Event, secrets []string) {
	switch r.Intn(6) {
	case 0, 1:
		e := PersonA{T: "person", ID: subject, UID: uid, Name: Secret(r), Email: Secret(r), Status: "st-" + RandText(r, 5), Plain: r.Intn(100)}
		secrets = []string{e.Name, e.Email}
		if r.Intn(6) == 0 {
			e.Email = ""
			secrets = secrets[:1]
		}
		w := e
		if r.Intn(3) == 0 {
			return e, &w, secrets
		}
		return &e, &w, secrets
	case 2, 3:
		e := PersonB{T: "person", ID: subject, UID: uid, Num: secretNum(r), Text: Secret(r), Status: "st"}
		w := e
		secrets = []string{strconv.Itoa(e.Num), e.Text}
		if r.Intn(3) == 0 {
			return e, &w, secrets
		}
		return &e, &w, secrets
	case 4:
		e := cryptotest.CustomerSignedUp{ID: subject, Name: Secret(r), Email: Secret(r), Status: "active"}
		w := e
		return &e, &w, []string{e.Name, e.Email}
	default:
		e := cryptotest.CustomerAddedBirth{ID: subject, BirthMonth: secretNum(r), BirthYear: secretNum(r)}
		w := e
		return &e, &w, []string{strconv.Itoa(e.BirthMonth), strconv.Itoa(e.BirthYear)}
	}
}

func secretNum(r *rand.Rand) int {
	n := 900000000000 + r.Intn(99999999999)
	if r.Intn(4) == 0 {
		return -n
	}
	return n
}
