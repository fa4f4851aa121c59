package ubc

// VerifTable gives the simulator the table the engines read.
func VerifTable() []DvInfo { return sha1_dvs[:] }
