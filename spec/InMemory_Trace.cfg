SPECIFICATION TSpec
CONSTANT Epochs = {1, 2, 3}
