package net

import "context"

// Hooks of the simulated network; nil outside a simulation.
var SimDial func(ctx context.Context, network, address string) (Conn, error)
var SimListen func(ctx context.Context, network, address string) (Listener, error)
