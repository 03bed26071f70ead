// native stand-ins for logging etc. (weak: real definitions win)
