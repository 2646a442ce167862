module github.com/aodinokov/metac

go 1.23.0

require (
	github.com/Masterminds/sprig/v3 v3.2.3
	github.com/huandu/xstrings v1.4.0
	github.com/mitchellh/copystructure v1.2.0
	github.com/spf13/cobra v1.8.0
	gopkg.in/yaml.v3 v3.0.1
)

replace (
	github.com/Masterminds/sprig/v3 => /verif/gostub/sprig
	github.com/huandu/xstrings => /verif/gostub/xstrings
	github.com/mitchellh/copystructure => /verif/gostub/copystructure
	github.com/spf13/cobra => /verif/gostub/cobra
)
