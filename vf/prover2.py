"""further proof attempts for goals the first stages leave open"""


def more(path, c, o):
    return None
