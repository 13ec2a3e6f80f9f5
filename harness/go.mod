module pkgrverif

go 1.23

require (
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
)
