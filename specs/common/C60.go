//verif:property C60
package common

import (
	"time"

	gv "github.com/tg123/phabrik/zzgv"
)

// the contract, from the property: a span counts 100 ns ticks, truncated toward zero
func specTicks(d int64) int64 { return d / 100 }

func Verif_C60_from_duration() {
	d := gv.I64("d")
	ts := TimeSpanFromDuration(time.Duration(d))
	back := ts.ToDuration()
	gv.Assert(int64(back) == d-d%100, "converting to a span and back loses only the part below 100 ns")
	gv.Cover("converted")
}

func Verif_C60_to_duration() {
	ticks := gv.I64("ticks")
	gv.Assume(ticks <= (1<<63-1)/100 && ticks >= -((1<<63-1)/100))
	ts := TimeSpan(ticks)
	gv.Assert(int64(ts.ToDuration()) == ticks*100, "a span that fits converts exactly")
	gv.Assert(TimeSpanFromDuration(ts.ToDuration()) == ts, "a span that fits converts back")
	gv.Assert(specTicks(ticks*100) == ticks, "the tick is 100 ns")
	gv.Cover("converted")
}
