# per-property technique and notes
