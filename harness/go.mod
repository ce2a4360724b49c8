module verif

go 1.16

require (
	github.com/apache/arrow/go/arrow v0.0.0-20211112161151-bc219186db40 // indirect
	github.com/awalterschulze/gographviz v2.0.3+incompatible
	github.com/chewxy/hm v1.0.0
	github.com/chewxy/math32 v1.10.1
	github.com/go-gota/gota v0.12.0
	github.com/google/flatbuffers v2.0.6+incompatible // indirect
	github.com/google/uuid v1.3.0 // indirect
	github.com/leesper/go_rng v0.0.0-20190531154944-a612b043e353
	github.com/mattn/go-runewidth v0.0.13 // indirect
	github.com/pkg/errors v0.9.1
	github.com/stretchr/testify v1.7.0
	github.com/xtgo/set v1.0.0
	go4.org/unsafe/assume-no-moving-gc v0.0.0-20211027215541-db492cf91b37 // indirect
	golang.org/x/net v0.0.0-20220401154927-543a649e0bdd // indirect
	golang.org/x/sys v0.0.0-20220330033206-e17cdc41300f // indirect
	gonum.org/v1/gonum v0.11.0
	gonum.org/v1/netlib v0.0.0-20220323200511-14de99971b2d
	google.golang.org/protobuf v1.28.0 // indirect
	gopkg.in/cheggaaa/pb.v1 v1.0.28
	gorgonia.org/cu v0.9.4
	gorgonia.org/dawson v1.2.0
	gorgonia.org/tensor v0.9.23
	gorgonia.org/vecf32 v0.9.0
	gorgonia.org/vecf64 v0.9.0
)

require gorgonia.org/gorgonia v0.9.17

replace gorgonia.org/gorgonia => /repo
