"""When is a difference between two value graphs a difference of behaviour?"""


def classify(d):
    return True, repr(d)
