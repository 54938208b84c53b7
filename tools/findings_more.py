# (property, signature reported by the check, what fails)
KNOWN = [
 ("P10", "frame:position-dropped", "TextCursor::set_frame_format drops FrameFormat::position: the frame's position stays as it was (SetFrameFormatDto has no field for it, and adding one breaks a struct literal in an existing test)"),
]
