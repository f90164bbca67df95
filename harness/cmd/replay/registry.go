package main

// Replaced by an overlay with the list of harnesses.
var registry = map[string]func(){}
