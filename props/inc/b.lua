b1
b2