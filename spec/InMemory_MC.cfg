SPECIFICATION Spec
CONSTANT Epochs = {1, 2}
INVARIANT NoRepeat Complete ExactlyAll InOrder Lexicographic NeverStuck
