// Package kv is the specification vocabulary of the contract files.
// Nothing here is ever executed: the verifier gives each function its meaning.
package kv

import "time"

// Requires: precondition. Assumed when verifying, an obligation at call sites.
func Requires(c bool) { panic("spec") }

// Assume: trusted assumption (listed in the evidence).
func Assume(c bool) { panic("spec") }

// Ensures: named obligation.
func Ensures(name string, c bool) { panic("spec") }

// Assert: obligation, untagged helper.
func Assert(name string, c bool) { panic("spec") }

// Cover: the current path must be reachable (vacuity guard).
func Cover(name string) { panic("spec") }

// Is: functional contract. Verifying: obligation that got equals want. At call sites: the result is want.
func Is[T any](name string, got, want T) T { panic("spec") }

// New: the call returns a new object. Verifying: obligation that got is fresh.
// At call sites: the result is a new object with unknown contents.
func New[T any](name string, got T) T { panic("spec") }

// NewIf: *at holds a new object if c holds and nil otherwise (like New).
func NewIf[T any](name string, at *T, c bool) { panic("spec") }

func Implies(a, b bool) bool { panic("spec") }
func Iff(a, b bool) bool     { panic("spec") }

// Ite: pure conditional.
func Ite[T any](c bool, a, b T) T { panic("spec") }

func Forall[T any](f func(x T) bool) bool { panic("spec") }
func Exists[T any](f func(x T) bool) bool { panic("spec") }

// ForallN: for all 0 <= i < n.
func ForallN(n int, f func(i int) bool) bool { panic("spec") }
func ExistsN(n int, f func(i int) bool) bool { panic("spec") }

// By: cond; instances of the quantifier around it are made for values of trig that occur.
func By(cond bool, trig ...any) bool { panic("spec") }

// Any: an arbitrary value.
func Any[T any]() T { panic("spec") }

// UF: application of an uninterpreted (deterministic) function.
func UF[T any](name string, args ...any) T { panic("spec") }

// Snap: a copy of the map's current contents.
func Snap[M any](m M) M { panic("spec") }

// Eq: leafwise equality of two values.
func Eq[T any](a, b T) bool { panic("spec") }

// SeqEq: same length and equal elements.
func SeqEq[T any](a, b []T) bool { panic("spec") }

// MapEq: same keys and equal values.
func MapEq[M any](a, b M) bool { panic("spec") }

// Ghost: ghost record attached to a reference.
func Ghost[T any](p any) *T { panic("spec") }

// Field: address of the (unexported) field name of the struct p points to.
func Field[T any](p any, name string) *T { panic("spec") }

// Fold: the value of a loop that updates acc.
func Fold[T any](n int, init T, step func(acc T, i int) T) T { panic("spec") }

// Modifies: at call sites, what p points to becomes arbitrary.
func Modifies(p ...any) { panic("spec") }

// ModifiesGhost: at call sites, the ghost counter becomes arbitrary.
func ModifiesGhost(name string) { panic("spec") }

// Havoc: what p points to becomes arbitrary, everywhere.
func Havoc(p any) { panic("spec") }

// HavocMap: the contents of the map become arbitrary.
func HavocMap(m any) { panic("spec") }

// UseMode: true when a contract is being applied at a call site.
func UseMode() bool { panic("spec") }

// Spawned: number of goroutines started since the unit began.
func Spawned() int { panic("spec") }

// RunSpawned runs the bodies of the goroutines started so far (in order) and clears the list.
func RunSpawned() { panic("spec") }

// RunOneSpawned runs the body of one of the goroutines started so far: the unit is verified for each
// (contract flag choose). The list is cleared.
func RunOneSpawned() { panic("spec") }

// Blocking: number of potentially blocking operations performed (locks excluded).
func Blocking() int { panic("spec") }

// Sent: number of values sent so far on the channel; SentAt: the i-th value.
func Sent(ch any) int                { panic("spec") }
func SentAt[T any](ch any, i int) T { panic("spec") }

// Received: number of values received so far from the channel; ReceivedAt: the i-th value.
func Received(ch any) int              { panic("spec") }
func ReceivedAt[T any](ch any, i int) T { panic("spec") }

// SpawnedAwait: one of the goroutines started, run from here to its end, tries to receive from the channel.
func SpawnedAwait(ch any) bool { panic("spec") }

// Awaited: a receive from the channel was tried.
func Awaited(ch any) bool { panic("spec") }

// Cap: the capacity of the channel.
func Cap(ch any) int { panic("spec") }

// Pending: the counter of a sync.WaitGroup.
func Pending(wg any) int { panic("spec") }

// NonNil: nothing sent on the channel is nil.
func NonNil(ch any) { panic("spec") }

// NeverClosed: nobody else closes the channel.
func NeverClosed(ch any) { panic("spec") }

// Closed: whether the channel has been closed.
func Closed(ch any) bool { panic("spec") }

// IsNil: nil test of the dynamic value in an interface.
func IsNil(x any) bool { panic("spec") }

// Fresh: p was allocated during the unit.
func Fresh(p any) bool { panic("spec") }

// MapClear, MapRemoveIf: bulk updates of ghost maps.
func MapRemoveIf[K comparable, V any](m map[K]V, f func(k K, v V) bool) { panic("spec") }

// MapInit: sets the map contents from functions.
func MapSet[K comparable, V any](m map[K]V, has func(k K) bool, val func(k K) V, n int) { panic("spec") }

// SliceOf: a fresh slice with the given length and contents.
func SliceOf[T any](n int, at func(i int) T) []T { panic("spec") }

// Same: identical references.
func Same(a, b any) bool { panic("spec") }

// Unreachable: obligation that the path is infeasible.
func Unreachable(name string) { panic("spec") }

// Bytes: string content of a byte slice.
func Bytes(b []byte) string { panic("spec") }

// Stop ends the path.
func Stop() { panic("spec") }

// Dyn: dynamic type identifier of an interface value (0 for nil).
func Dyn(x any) int { panic("spec") }

// Catch runs f and reports whether it panicked.
func Catch(f func()) bool { panic("spec") }

// Seen: the loop over a map whose invariant is evaluated has had the key k.
func Seen[K any](k K) bool { panic("spec") }

// Held: lock state of a mutex (0 free, 1 write-locked, 2 read-locked).
func Held(mu any) int         { panic("spec") }
func SetHeld(mu any, n int)   { panic("spec") }

// Content: the string content of a modelled stream object (bytes.Buffer, strings.Builder, bufio.Reader).
func Content(p any) string       { panic("spec") }
func SetContent(p any, s string) { panic("spec") }

// Int: mathematical integers (no wrap-around).
type Int int64

// Nanos: nanoseconds since the zero time.
func Nanos(t time.Time) Int  { panic("spec") }
func TimeAt(n Int) time.Time { panic("spec") }

// Now: the current value of the clock ghost.
func Now() Int { panic("spec") }

// GhostInt: a named ghost counter, initially 0.
func GhostInt(name string) int       { panic("spec") }
func SetGhostInt(name string, n int) { panic("spec") }

func Implements[T any](x any) bool { panic("spec") }
func Trust(s string) { panic("spec") }
func StrIndex(s, t string) int { panic("spec") }
func HasPrefix(s, p string) bool { panic("spec") }
func HasSuffix(s, p string) bool { panic("spec") }

// OfBytes: a fresh byte slice with the given content.
func OfBytes(s string) []byte { panic("spec") }

// Prove: lemma step; an obligation that is available afterwards.
func Prove(name string, c bool) { panic("spec") }

// Result: an unknown value.
func Result[T any]() T { panic("spec") }

// MapUF: a fresh map whose contents are uninterpreted functions of the arguments.
func MapUF[M any](name string, args ...any) M { panic("spec") }

// Choose returns a number below n: the contract (flagged choose) is verified once for each of them.
func Choose(n int) int { return 0 }
