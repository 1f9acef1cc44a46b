package comm

import "compress/zlib"

func init() { newUnzip = zlib.NewReader }
