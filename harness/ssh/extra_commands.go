package ssh

// VerifCommands takes the registered commands and leaves only those that
// were there at the first call.
func VerifCommands() map[string]Command {
	if verifBase == nil {
		verifBase = map[string]bool{}
		for _, c := range commands {
			verifBase[c.Name] = true
		}
	}
	r := map[string]Command{}
	keep := make([]Command, 0, len(commands))
	for _, c := range commands {
		r[c.Name] = c
		if verifBase[c.Name] {
			keep = append(keep, c)
		}
	}
	commands = keep
	return r
}

var verifBase map[string]bool
