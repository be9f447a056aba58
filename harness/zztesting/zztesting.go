// Package zztesting stands in for testing: it records what is reported to a test.
package zztesting

// Stop is the value FailNow unwinds with.
type Stop struct{}

type T struct {
	TestName string
	Fails    int      // calls that fail the test
	Stops    int      // calls that end it
	Report   []string // the strings reported with them
	Reports  int      // arguments reported with them
}

type TB interface {
	Name() string
	Helper()
	Fail()
	FailNow()
	Failed() bool
	Fatal(args ...any)
	Fatalf(format string, args ...any)
	Error(args ...any)
	Errorf(format string, args ...any)
	Log(args ...any)
	Logf(format string, args ...any)
}

func (t *T) Name() string { return t.TestName }
func (t *T) Helper()      {}
func (t *T) Failed() bool { return t.Fails != 0 }
func (t *T) Fail()        { t.Fails++ }
func (t *T) FailNow() {
	t.Fails++
	t.Stops++
	panic(Stop{})
}

func (t *T) add(args []any) {
	for _, a := range args {
		t.Reports++
		switch s := a.(type) {
		case string:
			t.Report = append(t.Report, s)
		case error:
			if s != nil {
				t.Report = append(t.Report, s.Error())
			}
		}
	}
}
func (t *T) Log(args ...any) { t.add(args) }
func (t *T) Logf(format string, args ...any) {
	t.Report = append(t.Report, format)
	t.add(args)
}
func (t *T) Error(args ...any) {
	t.Log(args...)
	t.Fail()
}
func (t *T) Errorf(format string, args ...any) {
	t.Logf(format, args...)
	t.Fail()
}
func (t *T) Fatal(args ...any) {
	t.Log(args...)
	t.FailNow()
}
func (t *T) Fatalf(format string, args ...any) {
	t.Logf(format, args...)
	t.FailNow()
}
func (t *T) Skip(args ...any)                   {}
func (t *T) Cleanup(f func())                   {}
func (t *T) Run(name string, f func(t *T)) bool { f(t); return t.Fails == 0 }
