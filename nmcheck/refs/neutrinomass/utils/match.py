def _extend_if_consistent(pattern, data, frame):
    if pattern in frame:
        return pattern_match(frame[pattern], data, frame)
    else:
        return {**frame, **{pattern: data}}

def _match_on_collection(pattern, data, frame):
    try:
        return pattern_match(pattern[1:], data[1:], pattern_match(pattern[0], data[0], frame))
    except:
        return False

def is_pattern_var(symbol):
    return isinstance(symbol, str) and symbol[0] == '?'

def pattern_match(pattern, data, frame):
    if frame == False:
        return False
    elif is_pattern_var(pattern):
        return _extend_if_consistent(pattern, data, frame)
    elif pattern == data:
        return frame
    elif isinstance(pattern, (list, tuple)) and isinstance(data, (list, tuple)):
        return _match_on_collection(pattern, data, frame)
    else:
        return False

def is_match(pattern, data):
    return pattern_match(pattern, data, {}) != False

def pmatch(pattern, data):
    return pattern_match(pattern, data, {})
