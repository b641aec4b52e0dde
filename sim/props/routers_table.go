// Code generated by tools/mkrouters.py. DO NOT EDIT.

package props

import (
	"google.golang.org/grpc"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

func init() {
	RegisterRouters([]RouterCase{
		{
			Name: "accesspb.ApiRouter", Service: &traits.AccessApi_ServiceDesc, Client: "AccessApiClient",
			New:       func(opts ...router.Option) router.Router { return accesspb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAccessApiClient(cc) },
			Wrap:      func(srv any) any { return accesspb.WrapApi(srv.(traits.AccessApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return accesspb.WithAccessApiClientFactory(func(name string) (traits.AccessApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AccessApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "airqualitysensorpb.ApiRouter", Service: &traits.AirQualitySensorApi_ServiceDesc, Client: "AirQualitySensorApiClient",
			New:       func(opts ...router.Option) router.Router { return airqualitysensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(cc) },
			Wrap:      func(srv any) any { return airqualitysensorpb.WrapApi(srv.(traits.AirQualitySensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(name string) (traits.AirQualitySensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirQualitySensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "airqualitysensorpb.InfoRouter", Service: &traits.AirQualitySensorInfo_ServiceDesc, Client: "AirQualitySensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return airqualitysensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(cc) },
			Wrap:      func(srv any) any { return airqualitysensorpb.WrapInfo(srv.(traits.AirQualitySensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(name string) (traits.AirQualitySensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirQualitySensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "airtemperaturepb.ApiRouter", Service: &traits.AirTemperatureApi_ServiceDesc, Client: "AirTemperatureApiClient",
			New:       func(opts ...router.Option) router.Router { return airtemperaturepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(cc) },
			Wrap:      func(srv any) any { return airtemperaturepb.WrapApi(srv.(traits.AirTemperatureApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return airtemperaturepb.WithAirTemperatureApiClientFactory(func(name string) (traits.AirTemperatureApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirTemperatureApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "airtemperaturepb.InfoRouter", Service: &traits.AirTemperatureInfo_ServiceDesc, Client: "AirTemperatureInfoClient",
			New:       func(opts ...router.Option) router.Router { return airtemperaturepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(cc) },
			Wrap:      func(srv any) any { return airtemperaturepb.WrapInfo(srv.(traits.AirTemperatureInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(name string) (traits.AirTemperatureInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.AirTemperatureInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "bookingpb.ApiRouter", Service: &traits.BookingApi_ServiceDesc, Client: "BookingApiClient",
			New:       func(opts ...router.Option) router.Router { return bookingpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingApiClient(cc) },
			Wrap:      func(srv any) any { return bookingpb.WrapApi(srv.(traits.BookingApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return bookingpb.WithBookingApiClientFactory(func(name string) (traits.BookingApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BookingApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "bookingpb.InfoRouter", Service: &traits.BookingInfo_ServiceDesc, Client: "BookingInfoClient",
			New:       func(opts ...router.Option) router.Router { return bookingpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(cc) },
			Wrap:      func(srv any) any { return bookingpb.WrapInfo(srv.(traits.BookingInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return bookingpb.WithBookingInfoClientFactory(func(name string) (traits.BookingInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BookingInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "brightnesssensorpb.ApiRouter", Service: &traits.BrightnessSensorApi_ServiceDesc, Client: "BrightnessSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return brightnesssensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(cc) },
			Wrap:      func(srv any) any { return brightnesssensorpb.WrapApi(srv.(traits.BrightnessSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(name string) (traits.BrightnessSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BrightnessSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "brightnesssensorpb.InfoRouter", Service: &traits.BrightnessSensorInfo_ServiceDesc, Client: "BrightnessSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return brightnesssensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return brightnesssensorpb.WrapInfo(srv.(traits.BrightnessSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(name string) (traits.BrightnessSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.BrightnessSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "channelpb.ApiRouter", Service: &traits.ChannelApi_ServiceDesc, Client: "ChannelApiClient",
			New:       func(opts ...router.Option) router.Router { return channelpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelApiClient(cc) },
			Wrap:      func(srv any) any { return channelpb.WrapApi(srv.(traits.ChannelApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return channelpb.WithChannelApiClientFactory(func(name string) (traits.ChannelApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ChannelApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "channelpb.InfoRouter", Service: &traits.ChannelInfo_ServiceDesc, Client: "ChannelInfoClient",
			New:       func(opts ...router.Option) router.Router { return channelpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(cc) },
			Wrap:      func(srv any) any { return channelpb.WrapInfo(srv.(traits.ChannelInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return channelpb.WithChannelInfoClientFactory(func(name string) (traits.ChannelInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ChannelInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "colorpb.ApiRouter", Service: &traits.ColorApi_ServiceDesc, Client: "ColorApiClient",
			New:       func(opts ...router.Option) router.Router { return colorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorApiClient(cc) },
			Wrap:      func(srv any) any { return colorpb.WrapApi(srv.(traits.ColorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return colorpb.WithColorApiClientFactory(func(name string) (traits.ColorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ColorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "colorpb.InfoRouter", Service: &traits.ColorInfo_ServiceDesc, Client: "ColorInfoClient",
			New:       func(opts ...router.Option) router.Router { return colorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewColorInfoClient(cc) },
			Wrap:      func(srv any) any { return colorpb.WrapInfo(srv.(traits.ColorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return colorpb.WithColorInfoClientFactory(func(name string) (traits.ColorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ColorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "countpb.ApiRouter", Service: &traits.CountApi_ServiceDesc, Client: "CountApiClient",
			New:       func(opts ...router.Option) router.Router { return countpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountApiClient(cc) },
			Wrap:      func(srv any) any { return countpb.WrapApi(srv.(traits.CountApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return countpb.WithCountApiClientFactory(func(name string) (traits.CountApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.CountApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "countpb.InfoRouter", Service: &traits.CountInfo_ServiceDesc, Client: "CountInfoClient",
			New:       func(opts ...router.Option) router.Router { return countpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewCountInfoClient(cc) },
			Wrap:      func(srv any) any { return countpb.WrapInfo(srv.(traits.CountInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return countpb.WithCountInfoClientFactory(func(name string) (traits.CountInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.CountInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "electricpb.ApiRouter", Service: &traits.ElectricApi_ServiceDesc, Client: "ElectricApiClient",
			New:       func(opts ...router.Option) router.Router { return electricpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricApiClient(cc) },
			Wrap:      func(srv any) any { return electricpb.WrapApi(srv.(traits.ElectricApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return electricpb.WithElectricApiClientFactory(func(name string) (traits.ElectricApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ElectricApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "electricpb.InfoRouter", Service: &traits.ElectricInfo_ServiceDesc, Client: "ElectricInfoClient",
			New:       func(opts ...router.Option) router.Router { return electricpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(cc) },
			Wrap:      func(srv any) any { return electricpb.WrapInfo(srv.(traits.ElectricInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return electricpb.WithElectricInfoClientFactory(func(name string) (traits.ElectricInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ElectricInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "electricpb.MemorySettingsApiRouter", Service: &electricpb.MemorySettingsApi_ServiceDesc, Client: "MemorySettingsApiClient",
			New:       func(opts ...router.Option) router.Router { return electricpb.NewMemorySettingsApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(cc) },
			Wrap:      func(srv any) any { return electricpb.WrapMemorySettingsApi(srv.(electricpb.MemorySettingsApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return electricpb.WithMemorySettingsApiClientFactory(func(name string) (electricpb.MemorySettingsApiClient, error) {
					c, err := f(name)
					cc, _ := c.(electricpb.MemorySettingsApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "emergencypb.ApiRouter", Service: &traits.EmergencyApi_ServiceDesc, Client: "EmergencyApiClient",
			New:       func(opts ...router.Option) router.Router { return emergencypb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(cc) },
			Wrap:      func(srv any) any { return emergencypb.WrapApi(srv.(traits.EmergencyApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return emergencypb.WithEmergencyApiClientFactory(func(name string) (traits.EmergencyApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EmergencyApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "emergencypb.InfoRouter", Service: &traits.EmergencyInfo_ServiceDesc, Client: "EmergencyInfoClient",
			New:       func(opts ...router.Option) router.Router { return emergencypb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(cc) },
			Wrap:      func(srv any) any { return emergencypb.WrapInfo(srv.(traits.EmergencyInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return emergencypb.WithEmergencyInfoClientFactory(func(name string) (traits.EmergencyInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EmergencyInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "energystoragepb.ApiRouter", Service: &traits.EnergyStorageApi_ServiceDesc, Client: "EnergyStorageApiClient",
			New:       func(opts ...router.Option) router.Router { return energystoragepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(cc) },
			Wrap:      func(srv any) any { return energystoragepb.WrapApi(srv.(traits.EnergyStorageApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return energystoragepb.WithEnergyStorageApiClientFactory(func(name string) (traits.EnergyStorageApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnergyStorageApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "energystoragepb.InfoRouter", Service: &traits.EnergyStorageInfo_ServiceDesc, Client: "EnergyStorageInfoClient",
			New:       func(opts ...router.Option) router.Router { return energystoragepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(cc) },
			Wrap:      func(srv any) any { return energystoragepb.WrapInfo(srv.(traits.EnergyStorageInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return energystoragepb.WithEnergyStorageInfoClientFactory(func(name string) (traits.EnergyStorageInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnergyStorageInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "enterleavesensorpb.ApiRouter", Service: &traits.EnterLeaveSensorApi_ServiceDesc, Client: "EnterLeaveSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return enterleavesensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(cc) },
			Wrap:      func(srv any) any { return enterleavesensorpb.WrapApi(srv.(traits.EnterLeaveSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(name string) (traits.EnterLeaveSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnterLeaveSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "enterleavesensorpb.InfoRouter", Service: &traits.EnterLeaveSensorInfo_ServiceDesc, Client: "EnterLeaveSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return enterleavesensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return enterleavesensorpb.WrapInfo(srv.(traits.EnterLeaveSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(name string) (traits.EnterLeaveSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.EnterLeaveSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "extendretractpb.ApiRouter", Service: &traits.ExtendRetractApi_ServiceDesc, Client: "ExtendRetractApiClient",
			New:       func(opts ...router.Option) router.Router { return extendretractpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(cc) },
			Wrap:      func(srv any) any { return extendretractpb.WrapApi(srv.(traits.ExtendRetractApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return extendretractpb.WithExtendRetractApiClientFactory(func(name string) (traits.ExtendRetractApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ExtendRetractApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "extendretractpb.InfoRouter", Service: &traits.ExtendRetractInfo_ServiceDesc, Client: "ExtendRetractInfoClient",
			New:       func(opts ...router.Option) router.Router { return extendretractpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(cc) },
			Wrap:      func(srv any) any { return extendretractpb.WrapInfo(srv.(traits.ExtendRetractInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return extendretractpb.WithExtendRetractInfoClientFactory(func(name string) (traits.ExtendRetractInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ExtendRetractInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "fanspeedpb.ApiRouter", Service: &traits.FanSpeedApi_ServiceDesc, Client: "FanSpeedApiClient",
			New:       func(opts ...router.Option) router.Router { return fanspeedpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(cc) },
			Wrap:      func(srv any) any { return fanspeedpb.WrapApi(srv.(traits.FanSpeedApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return fanspeedpb.WithFanSpeedApiClientFactory(func(name string) (traits.FanSpeedApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.FanSpeedApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "fanspeedpb.InfoRouter", Service: &traits.FanSpeedInfo_ServiceDesc, Client: "FanSpeedInfoClient",
			New:       func(opts ...router.Option) router.Router { return fanspeedpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(cc) },
			Wrap:      func(srv any) any { return fanspeedpb.WrapInfo(srv.(traits.FanSpeedInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return fanspeedpb.WithFanSpeedInfoClientFactory(func(name string) (traits.FanSpeedInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.FanSpeedInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "hailpb.ApiRouter", Service: &traits.HailApi_ServiceDesc, Client: "HailApiClient",
			New:       func(opts ...router.Option) router.Router { return hailpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailApiClient(cc) },
			Wrap:      func(srv any) any { return hailpb.WrapApi(srv.(traits.HailApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return hailpb.WithHailApiClientFactory(func(name string) (traits.HailApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.HailApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "hailpb.InfoRouter", Service: &traits.HailInfo_ServiceDesc, Client: "HailInfoClient",
			New:       func(opts ...router.Option) router.Router { return hailpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewHailInfoClient(cc) },
			Wrap:      func(srv any) any { return hailpb.WrapInfo(srv.(traits.HailInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return hailpb.WithHailInfoClientFactory(func(name string) (traits.HailInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.HailInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "inputselectpb.ApiRouter", Service: &traits.InputSelectApi_ServiceDesc, Client: "InputSelectApiClient",
			New:       func(opts ...router.Option) router.Router { return inputselectpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(cc) },
			Wrap:      func(srv any) any { return inputselectpb.WrapApi(srv.(traits.InputSelectApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return inputselectpb.WithInputSelectApiClientFactory(func(name string) (traits.InputSelectApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.InputSelectApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "inputselectpb.InfoRouter", Service: &traits.InputSelectInfo_ServiceDesc, Client: "InputSelectInfoClient",
			New:       func(opts ...router.Option) router.Router { return inputselectpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(cc) },
			Wrap:      func(srv any) any { return inputselectpb.WrapInfo(srv.(traits.InputSelectInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return inputselectpb.WithInputSelectInfoClientFactory(func(name string) (traits.InputSelectInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.InputSelectInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "lightpb.ApiRouter", Service: &traits.LightApi_ServiceDesc, Client: "LightApiClient",
			New:       func(opts ...router.Option) router.Router { return lightpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightApiClient(cc) },
			Wrap:      func(srv any) any { return lightpb.WrapApi(srv.(traits.LightApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return lightpb.WithLightApiClientFactory(func(name string) (traits.LightApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LightApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "lightpb.InfoRouter", Service: &traits.LightInfo_ServiceDesc, Client: "LightInfoClient",
			New:       func(opts ...router.Option) router.Router { return lightpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLightInfoClient(cc) },
			Wrap:      func(srv any) any { return lightpb.WrapInfo(srv.(traits.LightInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return lightpb.WithLightInfoClientFactory(func(name string) (traits.LightInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LightInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "lockunlockpb.ApiRouter", Service: &traits.LockUnlockApi_ServiceDesc, Client: "LockUnlockApiClient",
			New:       func(opts ...router.Option) router.Router { return lockunlockpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(cc) },
			Wrap:      func(srv any) any { return lockunlockpb.WrapApi(srv.(traits.LockUnlockApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return lockunlockpb.WithLockUnlockApiClientFactory(func(name string) (traits.LockUnlockApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LockUnlockApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "lockunlockpb.InfoRouter", Service: &traits.LockUnlockInfo_ServiceDesc, Client: "LockUnlockInfoClient",
			New:       func(opts ...router.Option) router.Router { return lockunlockpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(cc) },
			Wrap:      func(srv any) any { return lockunlockpb.WrapInfo(srv.(traits.LockUnlockInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return lockunlockpb.WithLockUnlockInfoClientFactory(func(name string) (traits.LockUnlockInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.LockUnlockInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "metadatapb.ApiRouter", Service: &traits.MetadataApi_ServiceDesc, Client: "MetadataApiClient",
			New:       func(opts ...router.Option) router.Router { return metadatapb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(cc) },
			Wrap:      func(srv any) any { return metadatapb.WrapApi(srv.(traits.MetadataApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return metadatapb.WithMetadataApiClientFactory(func(name string) (traits.MetadataApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MetadataApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "metadatapb.InfoRouter", Service: &traits.MetadataInfo_ServiceDesc, Client: "MetadataInfoClient",
			New:       func(opts ...router.Option) router.Router { return metadatapb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(cc) },
			Wrap:      func(srv any) any { return metadatapb.WrapInfo(srv.(traits.MetadataInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return metadatapb.WithMetadataInfoClientFactory(func(name string) (traits.MetadataInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MetadataInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "meterpb.ApiRouter", Service: &traits.MeterApi_ServiceDesc, Client: "MeterApiClient",
			New:       func(opts ...router.Option) router.Router { return meterpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterApiClient(cc) },
			Wrap:      func(srv any) any { return meterpb.WrapApi(srv.(traits.MeterApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return meterpb.WithMeterApiClientFactory(func(name string) (traits.MeterApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MeterApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "meterpb.InfoRouter", Service: &traits.MeterInfo_ServiceDesc, Client: "MeterInfoClient",
			New:       func(opts ...router.Option) router.Router { return meterpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(cc) },
			Wrap:      func(srv any) any { return meterpb.WrapInfo(srv.(traits.MeterInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return meterpb.WithMeterInfoClientFactory(func(name string) (traits.MeterInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MeterInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "microphonepb.ApiRouter", Service: &traits.MicrophoneApi_ServiceDesc, Client: "MicrophoneApiClient",
			New:       func(opts ...router.Option) router.Router { return microphonepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(cc) },
			Wrap:      func(srv any) any { return microphonepb.WrapApi(srv.(traits.MicrophoneApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return microphonepb.WithMicrophoneApiClientFactory(func(name string) (traits.MicrophoneApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MicrophoneApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "microphonepb.InfoRouter", Service: &traits.MicrophoneInfo_ServiceDesc, Client: "MicrophoneInfoClient",
			New:       func(opts ...router.Option) router.Router { return microphonepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(cc) },
			Wrap:      func(srv any) any { return microphonepb.WrapInfo(srv.(traits.MicrophoneInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return microphonepb.WithMicrophoneInfoClientFactory(func(name string) (traits.MicrophoneInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MicrophoneInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "modepb.ApiRouter", Service: &traits.ModeApi_ServiceDesc, Client: "ModeApiClient",
			New:       func(opts ...router.Option) router.Router { return modepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeApiClient(cc) },
			Wrap:      func(srv any) any { return modepb.WrapApi(srv.(traits.ModeApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return modepb.WithModeApiClientFactory(func(name string) (traits.ModeApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ModeApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "modepb.InfoRouter", Service: &traits.ModeInfo_ServiceDesc, Client: "ModeInfoClient",
			New:       func(opts ...router.Option) router.Router { return modepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewModeInfoClient(cc) },
			Wrap:      func(srv any) any { return modepb.WrapInfo(srv.(traits.ModeInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return modepb.WithModeInfoClientFactory(func(name string) (traits.ModeInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ModeInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "motionsensorpb.ApiRouter", Service: &traits.MotionSensorApi_ServiceDesc, Client: "MotionSensorApiClient",
			New:       func(opts ...router.Option) router.Router { return motionsensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(cc) },
			Wrap:      func(srv any) any { return motionsensorpb.WrapApi(srv.(traits.MotionSensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return motionsensorpb.WithMotionSensorApiClientFactory(func(name string) (traits.MotionSensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MotionSensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "motionsensorpb.SensorInfoRouter", Service: &traits.MotionSensorSensorInfo_ServiceDesc, Client: "MotionSensorSensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return motionsensorpb.NewSensorInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(cc) },
			Wrap:      func(srv any) any { return motionsensorpb.WrapSensorInfo(srv.(traits.MotionSensorSensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(name string) (traits.MotionSensorSensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.MotionSensorSensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "occupancysensorpb.ApiRouter", Service: &traits.OccupancySensorApi_ServiceDesc, Client: "OccupancySensorApiClient",
			New:       func(opts ...router.Option) router.Router { return occupancysensorpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(cc) },
			Wrap:      func(srv any) any { return occupancysensorpb.WrapApi(srv.(traits.OccupancySensorApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return occupancysensorpb.WithOccupancySensorApiClientFactory(func(name string) (traits.OccupancySensorApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OccupancySensorApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "occupancysensorpb.InfoRouter", Service: &traits.OccupancySensorInfo_ServiceDesc, Client: "OccupancySensorInfoClient",
			New:       func(opts ...router.Option) router.Router { return occupancysensorpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(cc) },
			Wrap:      func(srv any) any { return occupancysensorpb.WrapInfo(srv.(traits.OccupancySensorInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(name string) (traits.OccupancySensorInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OccupancySensorInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "onoffpb.ApiRouter", Service: &traits.OnOffApi_ServiceDesc, Client: "OnOffApiClient",
			New:       func(opts ...router.Option) router.Router { return onoffpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(cc) },
			Wrap:      func(srv any) any { return onoffpb.WrapApi(srv.(traits.OnOffApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return onoffpb.WithOnOffApiClientFactory(func(name string) (traits.OnOffApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OnOffApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "onoffpb.InfoRouter", Service: &traits.OnOffInfo_ServiceDesc, Client: "OnOffInfoClient",
			New:       func(opts ...router.Option) router.Router { return onoffpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(cc) },
			Wrap:      func(srv any) any { return onoffpb.WrapInfo(srv.(traits.OnOffInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return onoffpb.WithOnOffInfoClientFactory(func(name string) (traits.OnOffInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OnOffInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "openclosepb.ApiRouter", Service: &traits.OpenCloseApi_ServiceDesc, Client: "OpenCloseApiClient",
			New:       func(opts ...router.Option) router.Router { return openclosepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(cc) },
			Wrap:      func(srv any) any { return openclosepb.WrapApi(srv.(traits.OpenCloseApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return openclosepb.WithOpenCloseApiClientFactory(func(name string) (traits.OpenCloseApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OpenCloseApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "openclosepb.InfoRouter", Service: &traits.OpenCloseInfo_ServiceDesc, Client: "OpenCloseInfoClient",
			New:       func(opts ...router.Option) router.Router { return openclosepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(cc) },
			Wrap:      func(srv any) any { return openclosepb.WrapInfo(srv.(traits.OpenCloseInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return openclosepb.WithOpenCloseInfoClientFactory(func(name string) (traits.OpenCloseInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.OpenCloseInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "parentpb.ApiRouter", Service: &traits.ParentApi_ServiceDesc, Client: "ParentApiClient",
			New:       func(opts ...router.Option) router.Router { return parentpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentApiClient(cc) },
			Wrap:      func(srv any) any { return parentpb.WrapApi(srv.(traits.ParentApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return parentpb.WithParentApiClientFactory(func(name string) (traits.ParentApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ParentApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "parentpb.InfoRouter", Service: &traits.ParentInfo_ServiceDesc, Client: "ParentInfoClient",
			New:       func(opts ...router.Option) router.Router { return parentpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewParentInfoClient(cc) },
			Wrap:      func(srv any) any { return parentpb.WrapInfo(srv.(traits.ParentInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return parentpb.WithParentInfoClientFactory(func(name string) (traits.ParentInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.ParentInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "presspb.ApiRouter", Service: &traits.PressApi_ServiceDesc, Client: "PressApiClient",
			New:       func(opts ...router.Option) router.Router { return presspb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPressApiClient(cc) },
			Wrap:      func(srv any) any { return presspb.WrapApi(srv.(traits.PressApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return presspb.WithPressApiClientFactory(func(name string) (traits.PressApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PressApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "ptzpb.ApiRouter", Service: &traits.PtzApi_ServiceDesc, Client: "PtzApiClient",
			New:       func(opts ...router.Option) router.Router { return ptzpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzApiClient(cc) },
			Wrap:      func(srv any) any { return ptzpb.WrapApi(srv.(traits.PtzApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ptzpb.WithPtzApiClientFactory(func(name string) (traits.PtzApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PtzApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "ptzpb.InfoRouter", Service: &traits.PtzInfo_ServiceDesc, Client: "PtzInfoClient",
			New:       func(opts ...router.Option) router.Router { return ptzpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(cc) },
			Wrap:      func(srv any) any { return ptzpb.WrapInfo(srv.(traits.PtzInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return ptzpb.WithPtzInfoClientFactory(func(name string) (traits.PtzInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PtzInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "publicationpb.ApiRouter", Service: &traits.PublicationApi_ServiceDesc, Client: "PublicationApiClient",
			New:       func(opts ...router.Option) router.Router { return publicationpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(cc) },
			Wrap:      func(srv any) any { return publicationpb.WrapApi(srv.(traits.PublicationApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return publicationpb.WithPublicationApiClientFactory(func(name string) (traits.PublicationApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.PublicationApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "speakerpb.ApiRouter", Service: &traits.SpeakerApi_ServiceDesc, Client: "SpeakerApiClient",
			New:       func(opts ...router.Option) router.Router { return speakerpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(cc) },
			Wrap:      func(srv any) any { return speakerpb.WrapApi(srv.(traits.SpeakerApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return speakerpb.WithSpeakerApiClientFactory(func(name string) (traits.SpeakerApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.SpeakerApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "speakerpb.InfoRouter", Service: &traits.SpeakerInfo_ServiceDesc, Client: "SpeakerInfoClient",
			New:       func(opts ...router.Option) router.Router { return speakerpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(cc) },
			Wrap:      func(srv any) any { return speakerpb.WrapInfo(srv.(traits.SpeakerInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return speakerpb.WithSpeakerInfoClientFactory(func(name string) (traits.SpeakerInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.SpeakerInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "temperaturepb.ApiRouter", Service: &traits.TemperatureApi_ServiceDesc, Client: "TemperatureApiClient",
			New:       func(opts ...router.Option) router.Router { return temperaturepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(cc) },
			Wrap:      func(srv any) any { return temperaturepb.WrapApi(srv.(traits.TemperatureApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return temperaturepb.WithTemperatureApiClientFactory(func(name string) (traits.TemperatureApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.TemperatureApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "vendingpb.ApiRouter", Service: &traits.VendingApi_ServiceDesc, Client: "VendingApiClient",
			New:       func(opts ...router.Option) router.Router { return vendingpb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingApiClient(cc) },
			Wrap:      func(srv any) any { return vendingpb.WrapApi(srv.(traits.VendingApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return vendingpb.WithVendingApiClientFactory(func(name string) (traits.VendingApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.VendingApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "vendingpb.InfoRouter", Service: &traits.VendingInfo_ServiceDesc, Client: "VendingInfoClient",
			New:       func(opts ...router.Option) router.Router { return vendingpb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(cc) },
			Wrap:      func(srv any) any { return vendingpb.WrapInfo(srv.(traits.VendingInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return vendingpb.WithVendingInfoClientFactory(func(name string) (traits.VendingInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.VendingInfoClient)
					return cc, err
				})
			},
		},
		{
			Name: "wastepb.ApiRouter", Service: &traits.WasteApi_ServiceDesc, Client: "WasteApiClient",
			New:       func(opts ...router.Option) router.Router { return wastepb.NewApiRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteApiClient(cc) },
			Wrap:      func(srv any) any { return wastepb.WrapApi(srv.(traits.WasteApiServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return wastepb.WithWasteApiClientFactory(func(name string) (traits.WasteApiClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.WasteApiClient)
					return cc, err
				})
			},
		},
		{
			Name: "wastepb.InfoRouter", Service: &traits.WasteInfo_ServiceDesc, Client: "WasteInfoClient",
			New:       func(opts ...router.Option) router.Router { return wastepb.NewInfoRouter(opts...) },
			NewClient: func(cc grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(cc) },
			Wrap:      func(srv any) any { return wastepb.WrapInfo(srv.(traits.WasteInfoServer)) },
			Factory: func(f func(string) (any, error)) router.Option {
				return wastepb.WithWasteInfoClientFactory(func(name string) (traits.WasteInfoClient, error) {
					c, err := f(name)
					cc, _ := c.(traits.WasteInfoClient)
					return cc, err
				})
			},
		},
	})
}
