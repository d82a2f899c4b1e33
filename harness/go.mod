module vharness

go 1.22

require github.com/muguangyi/ferry v0.0.0

replace github.com/muguangyi/ferry => /repo
