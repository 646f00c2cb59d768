NA.update({})
NOTES.update({})
