package main

import (
	"fmt"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
)

// Bot is a game-specific dice bot that handles "echo..." and "2D6" itself and
// refuses everything else.
type Bot struct {
	dicebot.DiceBotImpl
	Seen []string
}

func newBot(id string) *Bot {
	return &Bot{DiceBotImpl: dicebot.DiceBotImpl{BasicInfo: &dicebot.DiceBotBasicInfo{
		GameID: id, GameName: "Game " + id, Usage: "usage", SortKey: "key"}}}
}

// ExecuteCommand implements dicebot.DiceBot.
func (b *Bot) ExecuteCommand(c string, ev *evaluator.Evaluator) (*command.Result, error) {
	b.Seen = append(b.Seen, c)
	l := strings.ToLower(c)
	if strings.HasPrefix(l, "echo") {
		r := &command.Result{GameID: b.GameID()}
		r.AppendMessagePart("echo")
		r.AppendMessagePart(l)
		return r, nil
	}
	if l == "2d6" {
		ds, err := ev.RollDice(2, 6)
		if err != nil {
			return nil, err
		}
		r := &command.Result{GameID: b.GameID(), RolledDice: ds}
		r.AppendMessagePart(fmt.Sprintf("own %d", ds[0].Value+ds[1].Value))
		return r, nil
	}
	return nil, fmt.Errorf("unknown command")
}
