// stand-in: not used
