package playback

import (
	log "github.com/LogicalOverflow/music-sync/logging"
)

func init() {
	log.DefaultCutoffLevel = log.LevelOff
}
