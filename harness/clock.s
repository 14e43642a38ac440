// Lets clock.go declare a function without a body.
