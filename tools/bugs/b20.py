id = "b20-log-one-beyond-capacity"
property = "P20"
needs = "a log filled to its capacity and one message more"
breaks = "the message that does not fit crashes the build instead of being dropped"
package = "recast"
edits = [("recast/buildcontext.go", "if ctx.logEnabled && ctx.numMessages < maxMessages {", "if ctx.logEnabled && ctx.numMessages <= maxMessages {")]
demo = '''
package recast

import "testing"

func TestZZ(t *testing.T) {
	ctx := NewBuildContext(true)
	for i := 0; i < 1500; i++ {
		ctx.Progressf("message %d", i)
	}
	if ctx.LogCount() != 1000 || ctx.LogText(999) != "PROG message 999" {
		t.Fatal(ctx.LogCount())
	}
}
'''
