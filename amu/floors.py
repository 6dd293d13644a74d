FLOORS = {}
