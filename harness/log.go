package harness

import "go.uber.org/zap"

// The adapter logs through zap's globals (set up by an imported package): silence it.
func init() { zap.ReplaceGlobals(zap.NewNop()) }
