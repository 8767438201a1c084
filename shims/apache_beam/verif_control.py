SEED = 0
SHUFFLE = False
RETRY = False
