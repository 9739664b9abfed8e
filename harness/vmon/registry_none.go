//go:build !regoverlay

package main

import "github.com/raa0121/GoBCDice/pkg/dicebot"

// setRegistry cannot fill the registry in this build.
func setRegistry(m map[string]dicebot.DiceBotConstructor) bool { return false }
