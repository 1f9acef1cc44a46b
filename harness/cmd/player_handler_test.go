package main

import "github.com/LogicalOverflow/music-sync/comm"

func handlerUnderTest() comm.TypedPackageHandler { return newPlayerPackageHandler() }
