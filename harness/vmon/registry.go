//go:build regoverlay

package main

import (
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
)

// setRegistry replaces the registered game systems (see registry_overlay.go.txt).
func setRegistry(m map[string]dicebot.DiceBotConstructor) bool {
	dicebotlist.VerifSetRegistry(m)
	return true
}
