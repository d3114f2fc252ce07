//go:build !verif

package main

import "github.com/williamflynt/topolith/pkg/app"

const haveHooks = false

func appUndo(a app.App) (error, int) { panic("built without the verif hooks") }
func appRedo(a app.App) (error, int) { panic("built without the verif hooks") }
