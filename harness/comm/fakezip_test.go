package comm

import zlib "github.com/LogicalOverflow/music-sync/zzmc/fakezlib"

func init() { newUnzip = zlib.NewReader }
