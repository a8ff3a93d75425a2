// Feeds sequences of messages to the live parallel views and reports what they show.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"

	tea "charm.land/bubbletea/v2"
	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/tui"
)

type msg struct {
	M, Key, Parent, Label, Line, Err, K string
	W, H                                int
}
type caseT struct {
	Mode  string
	Items []string
	Msgs  []msg
}
type shot struct {
	View    string `json:"view"`
	Quit    bool   `json:"quit"`
	Cancels int    `json:"cancels"`
}

func step(c caseT) (out []shot) {
	cancels := 0
	var items []tui.ParallelItem
	for _, l := range c.Items {
		items = append(items, tui.ParallelItem{Label: l, Color: lipgloss.Color("1")})
	}
	var m tea.Model
	if c.Mode == "tabs" {
		m = tui.NewTabsModel(items, func() { cancels++ })
	} else {
		m = tui.NewGroupedModel(items, func() { cancels++ })
	}
	m.Init()
	for _, x := range c.Msgs {
		var t tea.Msg
		switch x.M {
		case "reg":
			t = tui.ItemRegisterMsg{Key: x.Key, Parent: x.Parent, Label: x.Label, Color: lipgloss.Color("2")}
		case "start":
			t = tui.ItemStartMsg{Key: x.Key}
		case "out":
			t = tui.ItemOutputMsg{Key: x.Key, Line: x.Line}
		case "done":
			var err error
			switch x.Err {
			case "fail":
				err = errors.New("exit status 1")
			case "cancel":
				err = fmt.Errorf("item: %w", context.Canceled)
			}
			t = tui.ItemDoneMsg{Key: x.Key, Err: err}
		case "clear":
			t = tui.ItemClearChildrenMsg{Key: x.Key}
		case "all":
			t = tui.AllDoneMsg{}
		case "size":
			t = tea.WindowSizeMsg{Width: x.W, Height: x.H}
		case "key":
			switch x.K {
			case "^C":
				t = tea.KeyPressMsg{Code: 'c', Mod: tea.ModCtrl}
			case "TAB":
				t = tea.KeyPressMsg{Code: tea.KeyTab}
			case "BTAB":
				t = tea.KeyPressMsg{Code: tea.KeyTab, Mod: tea.ModShift}
			case "UP":
				t = tea.KeyPressMsg{Code: tea.KeyUp}
			case "DOWN":
				t = tea.KeyPressMsg{Code: tea.KeyDown}
			default:
				t = tea.KeyPressMsg{Code: []rune(x.K)[0], Text: x.K}
			}
		}
		var cmd tea.Cmd
		m, cmd = m.Update(t)
		quit := false
		if cmd != nil {
			_, quit = cmd().(tea.QuitMsg)
		}
		out = append(out, shot{View: fmt.Sprint(m.View().Content), Quit: quit, Cancels: cancels})
	}
	return out
}

func main() {
	in := bufio.NewReader(os.Stdin)
	dec, enc := json.NewDecoder(in), json.NewEncoder(os.Stdout)
	for {
		var c caseT
		if dec.Decode(&c) != nil {
			return
		}
		enc.Encode(step(c))
	}
}
